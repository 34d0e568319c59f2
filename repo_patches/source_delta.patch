From 32e3eb8b9b0e627252049a4d37fc928db771916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 01/53] fix: gcode_tempcal imports on Python 3 (absolute import
 of gcoder)

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..46712ad 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From fdbbbd61442b309d02ea29f51fc21a7b38bbc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 02/53] fix: gcode_tempcal --steps given on the command line is
 a number

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 46712ad..9be7962 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 70aef20fb2aacd981db72e3b962f7f1442703172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 03/53] fix: gcode_tempcal leaves layers below the minimum
 height alone

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 9be7962..16bcc83 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and current_z > self.min_z_change and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 4f73b096fd60d0c9806ce7fb2b24035cdb1094b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 04/53] fix: gcode_tempcal discrete gradient has the requested
 steps and ends at the end temperature

---
 gcodeutils/gcode_tempcal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 16bcc83..3068020 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -137,7 +137,9 @@ class GCodeStepTempGradient(GCodeTempGradient):
         self.max_temp = max(self.end_temp, self.start_temp)
 
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
+        # index of the current step, the topmost layer still belonging to the last one
+        step = min(int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps), self.steps - 1)
+        progress = float(step) / self.steps
         return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
 
 
-- 
2.43.0


From 4bfe92ac012e2357e69babaca56148122be1e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 05/53] fix: GCodeIterator copes with unknown and numerically
 equal heights

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..12ba8e6 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
-- 
2.43.0


From 41defbd7444107adfac329c2607a8cb9ec48122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 06/53] fix: GCodeIterator numbers layers by position, not by
 content

---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 12ba8e6..78d71ec 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From 9e97a51906af018c0862f47483d0bda812cd9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 07/53] fix: PauseAtLayer pauses once, at the start of the
 extruded layer

---
 gcodeutils/visit/pause_at_layer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index bd0993e..c5b96e4 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -16,14 +16,25 @@ class PauseAtLayer(GCodeVisitor):
 
     def __init__(self, pause_layer_list):
         self.__pause_layer_list = pause_layer_list
+        self.__paused_layers = set()
+
+    def will_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
+        """Forgets the pauses of an earlier walk when a new one begins
+        """
+        if gcode_iterator_info.layer_index == 0:
+            self.__paused_layers.clear()
 
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
         is_printed = gcode_iterator_info.is_printed
         is_pause_layer = gcode_iterator_info.layer_number in self.__pause_layer_list
-        should_pause = is_printed and is_pause_layer
+        # travels may cross the height of a layer, and hops may split a layer: it starts where it is first extruded
+        is_started = any(line.extruding for line in layer_as_pyline_list)
+        is_paused = gcode_iterator_info.layer_number in self.__paused_layers
+        should_pause = is_printed and is_pause_layer and is_started and not is_paused
         if should_pause:
+            self.__paused_layers.add(gcode_iterator_info.layer_number)
             gcode = gcode_iterator_info.gcode
             layer_index = gcode_iterator_info.layer_index
             commands_to_prepend = [PAUSE_COMMAND]
-- 
2.43.0


From f794ded09520d2cdf0da1dc11162dd92114be1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 08/53] fix: homing single axes (G28 X0, G28 X) does not home
 the others

---
 gcodeutils/gcoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..2429ff3 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -528,14 +528,16 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    # axes may be named without value, or with a zero one
+                    homed_axes = [bit[0] for bit in split_raw if bit[0] in ("x", "y", "z")]
+                    home_all = not homed_axes
+                    if home_all or "x" in homed_axes:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in homed_axes:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in homed_axes:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 93777675966b83fdbea7872de9b226d06a31a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 09/53] fix: G92 E shifts the extruder origin instead of adding
 its value to later positions

---
 gcodeutils/filter/arc_optimizer.py | 4 ++--
 gcodeutils/gcoder.py               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..5137aba 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,13 +308,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
-            op1.e=self.queue[0].current_e+arc_extrusion_length
+            op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
-                op2.e = op2.current_e = end_point.current_e
+                op2.e = op2.current_e = end_point.e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 2429ff3..f04463f 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -566,7 +566,7 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        offset_e = current_e - line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 78afc14ade544219b574c92b521c6af5fe367d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 10/53] fix: G92 without coordinate sets all of them to 0

---
 gcodeutils/gcoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f04463f..a939dd5 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -542,6 +542,9 @@ class GCode(object):
                         current_z = self.home_z
 
                 elif line.command == "G92":
+                    if line.x is None and line.y is None and line.z is None and line.e is None:
+                        # no coordinate given is equivalent to all 0
+                        offset_x, offset_y, offset_z, offset_e = current_x, current_y, current_z, current_e
                     if line.x is not None: offset_x = current_x - line.x
                     if line.y is not None: offset_y = current_y - line.y
                     if line.z is not None: offset_z = current_z - line.z
-- 
2.43.0


From 9b81af0d292058704eeca0e4f8252d37071cefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 11/53] fix: index of appended lines within their layer starts
 at 0

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index a939dd5..9a3da67 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -396,7 +396,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From d610e0e3ebc5aa59098884c486884a7465805771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 12/53] fix: rebuilt lines keep their comment and the
 parameters which are not parsed

---
 gcodeutils/gcoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 9a3da67..70a2414 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -28,6 +28,8 @@ gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
 gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.?[0-9]*)" % to_parse)
+# comments, and parameters which aren't parsed, are kept as is when a line is rebuilt
+gcode_kept_exp = re.compile(r"\([^\(\)]*\)|;.*|[abcdhklo-su-w][-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)", re.IGNORECASE)
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
@@ -168,7 +170,8 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    kept = gcode_kept_exp.findall(line.raw or "")
+    line.raw = " ".join([line.command + format.format(*arg)] + kept)
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 4e0a6a016853b4271c422d4cd7a92d621ea518ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 13/53] fix: conversion to relative extrusion follows G90/G91,
 mixed modes and the default mode

---
 gcodeutils/filter/relative_extrusion.py | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..53084f7 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -2,7 +2,7 @@ from decimal import Decimal
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
-    GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
+    GCODE_ABSOLUTE_EXTRUSION_COMMAND, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
     GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
 
 __author__ = 'olivier'
@@ -10,18 +10,34 @@ __author__ = 'olivier'
 
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
+        # extrusion mode of the original program
         self.relative_extrusion = False
+        # whether the modified program selected relative extrusion
+        self.relative_selected = False
         self.current_extrusion_distance = Decimal()
 
     def opcode_filter(self, opcode):
         if opcode.command == GCODE_RELATIVE_EXTRUSION_COMMAND:
             self.relative_extrusion = True
+            self.relative_selected = True
             return
 
         if opcode.command == GCODE_ABSOLUTE_EXTRUSION_COMMAND:
             self.relative_extrusion = False
+            self.relative_selected = True
             return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
 
+        # selecting a positioning mode also selects the extrusion mode
+        if opcode.command == GCODE_RELATIVE_POSITIONING_COMMAND:
+            self.relative_extrusion = True
+            return
+
+        if opcode.command == GCODE_ABSOLUTE_POSITIONING_COMMAND:
+            self.relative_extrusion = False
+            if self.relative_selected:
+                return [opcode, raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)]
+            return
+
         if opcode.command == GCODE_SET_POSITION_COMMAND:
 
             # when setting position, if E is set, use it, but if there is parameter, consider E=0
@@ -32,11 +48,21 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
+        if opcode.command in move_gcodes and self.relative_extrusion and opcode.e is not None:
+            # keep track of the extruder position in case the program goes back to absolute extrusion
+            self.current_extrusion_distance += Decimal(opcode.e)
+            return
+
         if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
+            select_relative = not self.relative_selected and self.current_extrusion_distance != 0
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
             opcode.e, self.current_extrusion_distance = (
             opcode.e - float(self.current_extrusion_distance), Decimal(opcode.e))
             opcode.relative_e=True
             unsplit(opcode)
+            if select_relative:
+                # programs start in absolute extrusion mode
+                self.relative_selected = True
+                return [raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND), opcode]
             return opcode
-- 
2.43.0


From a792e6187b72c982079a5234695b9a086bf343d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 14/53] fix: translation survives G92 (including G92 E0) and
 homing

---
 gcodeutils/filter/translate.py | 44 +++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..ac2d180 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -11,8 +11,11 @@ class GCodeXYTranslateFilter(GCodeFilter):
     """filter translating moves in the X/Y plane"""
 
     def __init__(self, x=None, y=None, **kwargs):
-        self.translate_x = x or 0.
-        self.translate_y = y or 0.
+        self.offset_x = self.translate_x = x or 0.
+        self.offset_y = self.translate_y = y or 0.
+
+        # whether the head was moved at its translated location
+        self.placed_x = self.placed_y = False
 
         self.first_move_after_home = False
 
@@ -38,6 +41,9 @@ class GCodeXYTranslateFilter(GCodeFilter):
                 return
 
             # at this point, we're an absolute move, we have to "hard patch" coordinate
+            self.placed_x = self.placed_x or opcode.x is not None
+            self.placed_y = self.placed_y or opcode.y is not None
+
             if opcode.x is not None and self.translate_x:
                 opcode.x += self.translate_x
                 unsplit(opcode)
@@ -57,25 +63,25 @@ class GCodeXYTranslateFilter(GCodeFilter):
             return
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
-                # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
-
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
-
-                unsplit(opcode)
-                return opcode
+            # no coordinate given is equivalent to all 0
+            set_all = opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None
 
-            if opcode.x is not None:
-                opcode.x -= self.translate_x
+            # once the head is translated, so is the new reference point and there's nothing left to do until homing
+            if self.placed_x and (set_all or opcode.x is not None):
                 self.translate_x = 0
 
-            if opcode.y is not None:
-                opcode.y -= self.translate_y
+            if self.placed_y and (set_all or opcode.y is not None):
                 self.translate_y = 0
 
-            unsplit(opcode)
-            return opcode
+            return
+
+        if opcode.command == 'G28':
+            # the head goes back to an untranslated location, and reference points are forgotten
+            homed_axes = [bit[0] for bit in split(opcode) if bit[0] in ('x', 'y', 'z')]
+            if not homed_axes or 'x' in homed_axes:
+                self.translate_x = self.offset_x
+                self.placed_x = False
+
+            if not homed_axes or 'y' in homed_axes:
+                self.translate_y = self.offset_y
+                self.placed_y = False
-- 
2.43.0


From 264055da0bd940114366e5810ff488eb40dde8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 15/53] fix: Cura profile is decoded on Python 3

---
 gcodeutils/stretch/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..1d02bc6 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -713,7 +713,8 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profile = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8')
+        profileOpts, alt = profile.split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From 60d18d55cae1a6adfda04c890dc02004b914421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 16/53] fix: stretched moves keep the feedrate and location set
 outside of loops

---
 gcodeutils/stretch/stretch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 1d02bc6..3f374e1 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -491,6 +491,11 @@ class StretchFilter:
         if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
+        # other moves also set the location and feedrate with which the next loop begins
+        if line.command in linear_move_gcodes:
+            self.feedRateMinute = line.f or self.feedRateMinute
+            self.oldLocation = get_location_from_line(self.oldLocation, line)
+
         return line
 
     def set_stretch_to_path(self):
-- 
2.43.0


From 5140dbc294032d229142e174c10d34c8c9079c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 17/53] fix: arc optimizer keeps leading comments and forgets
 unfinished work between programs

---
 gcodeutils/filter/arc_optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 5137aba..ac55e83 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -116,10 +116,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         return opcode
 
     def parse_gcode(self, gcode, opcode_filter):
+        self.queue = []
+        self.valid_circle = False
         for layer in gcode.all_layers:
             self.parse_layer(layer, opcode_filter)
         if len(self.queue) > 0:
             layer += self.queue
+            self.queue = []
+            self.valid_circle = False
 
     def get_circle_least_squares(self):
         """
@@ -333,7 +337,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None:
+            if len(self.queue) == 0:
+                # a comment has no location of its own, so it cannot begin a circle
+                return opcode
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From de3c9f570113c480263772129cc8c340af689ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 18/53] fix: arc optimizer copes with straight lines and moves
 without length

---
 gcodeutils/filter/arc_optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index ac55e83..cb4148c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -151,7 +151,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        linearity = ((-(suv * suv)) / suu) + svv
+        if linearity < EPSILON:
+            # all points are on a straight line
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / linearity
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -253,7 +257,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
-- 
2.43.0


From ce0a1655f3cd57f6266c7c6ceba601275a4a2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 19/53] fix: arc optimizer replaces only absolute linear moves
 at a single height

---
 gcodeutils/filter/arc_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index cb4148c..49421da 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -266,6 +266,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         check if entries in the queue constitute a valid circle
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
+        # the replaced segments have to be linear moves, between absolute locations
+        if any(line.command not in linear_move_gcodes or line.relative for line in self.queue[1:]):
+            return True, None
         # check from 1 as idx 0 indicates the move to the start point
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
@@ -273,7 +276,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-        valid_z = all([line.current_z == cur_z for line in self.queue[1:]])
+        # the arc begins at the height of the start point
+        valid_z = all([line.current_z == cur_z for line in self.queue])
         if not (valid_e and valid_f and valid_z):
             return True, None
         if all_e:
-- 
2.43.0


From c4243265389d37371b96b37f8a5e84e6c75892ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 20/53] fix: arc optimizer accepts at most one turn in a single
 direction

---
 gcodeutils/filter/arc_optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 49421da..2003ac9 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -21,6 +21,7 @@ MAX_RADIUS = 200              # mm, maximum radius of the detectable circle
 ALIGNMENT_ERROR = 0.015       # 15 µm, max. offset a point might be off of the resulting circle
 PHASE_ERROR = 5*cmath.pi/180  # 5° in radian, max deviation of the angle steps forming a circle
 EXTRUSION_ERROR = 0.15        # 15%, maximum deviation of the extrusion for the segments
+MIN_GAP = 0.005               # 5 µm, min. distance between the ends of an arc which isn't a complete circle
 EPSILON = 0.000001            # epsilon for zero comapriosn of float. everything less than will be treated as zero
 
 EXTRUSION_CORRECTION_LIMIT=0.01 # 1%, if the length of all segments deviates more than this from the legnth of the arc
@@ -219,7 +220,16 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        if any([error > PHASE_ERROR for error in angle_err]):
+            return True, circle
+        # all segments have to turn in the direction of the circle
+        phase_diffs = self.get_phase_diffs(circle)
+        if any([phase_diff * circle.direction <= 0 for phase_diff in phase_diffs]):
+            return True, circle
+        # a single arc does at most one turn, and closed circles have to end exactly where they started
+        sweep = abs(sum(phase_diffs))
+        gap = circle.start.distance_to(circle.end)
+        return sweep > 2 * cmath.pi + EPSILON or (sweep > cmath.pi and EPSILON < gap < MIN_GAP), circle
 
     def get_distances(self):
         """
-- 
2.43.0


From 7714fd1e7671c8bf4be0600268f56673ebd68c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 21/53] fix: arcs of moves without extrusion don't extrude

---
 gcodeutils/filter/arc_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 2003ac9..e8e49ab 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -310,7 +310,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
+        extrusions = self.get_distances() if end_point.e is not None else None
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
@@ -318,7 +318,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # travel moves
+            op1.relative_e = end_point.relative_e
+        elif end_point.relative_e:
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
-- 
2.43.0


From dacc7048d2f02b268defea62e99ca85c1fa5bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 22/53] fix: clockwise arcs in absolute extrusion mode extrude
 instead of retracting

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index e8e49ab..0f2d01d 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -332,7 +332,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         else:
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
-- 
2.43.0


From de3b9cedf1620286fcd2092b064b3b16020aaab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 23/53] fix: arcs end at the location and feedrate the program
 asked for

---
 gcodeutils/filter/arc_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 0f2d01d..b1493bc 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -314,8 +314,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        # locations of the program may be shifted by G92
+        op1.x = round(next(line.x for line in reversed(self.queue) if line.x is not None), 3)
+        op1.y = round(next(line.y for line in reversed(self.queue) if line.y is not None), 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
@@ -344,7 +345,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        op1.f = end_point.current_f or None
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From d7185d2006e1ff4e09affc7e287a3af7c9b3a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 24/53] fix: output files are replaced only once the modified
 program is complete, and errors are reported

---
 gcodeutils/gcode_mod.py           |  5 +--
 gcodeutils/gcode_optimize_arcs.py |  5 +--
 gcodeutils/gcode_stretch.py       |  5 +--
 gcodeutils/gcode_tempcal.py       |  5 +--
 gcodeutils/output.py              | 55 +++++++++++++++++++++++++++++++
 5 files changed, 67 insertions(+), 8 deletions(-)
 create mode 100644 gcodeutils/output.py

diff --git a/gcodeutils/gcode_mod.py b/gcodeutils/gcode_mod.py
index 3307c2b..abada7a 100644
--- a/gcodeutils/gcode_mod.py
+++ b/gcodeutils/gcode_mod.py
@@ -17,6 +17,7 @@ from gcodeutils.visit.pause_at_layer import PauseAtLayer
 __author__ = 'Olivier Jolly <olivier@pcedev.com>, Joe Friedrichsen <wireddown@users.noreply.github.com>'
 
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_program
 
 
 def main():
@@ -34,7 +35,7 @@ def main():
 
     parser.add_argument('infile', nargs='?', type=argparse.FileType('r'), default=sys.stdin,
                         help='Program filename to be modified. Defaults to standard input.')
-    parser.add_argument('outfile', nargs='?', type=argparse.FileType('w'), default=sys.stdout,
+    parser.add_argument('outfile', nargs='?',
                         help='Modified program. Defaults to standard output.')
 
     parser.add_argument('--verbose', '-v', action='count', default=1,
@@ -68,7 +69,7 @@ def main():
         iterator.accept(visitor)
 
     # write back modified gcode
-    gcode.write(args.outfile)
+    write_program(args.outfile, gcode.write)
 
 
 if __name__ == "__main__":
diff --git a/gcodeutils/gcode_optimize_arcs.py b/gcodeutils/gcode_optimize_arcs.py
index 4e77c24..b591b99 100644
--- a/gcodeutils/gcode_optimize_arcs.py
+++ b/gcodeutils/gcode_optimize_arcs.py
@@ -4,6 +4,7 @@ import sys
 
 from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_program
 from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
@@ -15,7 +16,7 @@ def main():
 
     parser.add_argument('infile', nargs='?', type=argparse.FileType('r'), default=sys.stdin,
                         help='Program filename to be modified. Defaults to standard input.')
-    parser.add_argument('outfile', nargs='?', type=argparse.FileType('w'), default=sys.stdout,
+    parser.add_argument('outfile', nargs='?',
                         help='Modified program. Defaults to standard output.')
     parser.add_argument('--inplace', '-i', action='store_true', help='Modify file inplace')
 
@@ -44,7 +45,7 @@ def main():
     GCodeArcOptimizerFilter().filter(gcode)
 
     # write back modified gcode
-    gcode.write(open(args.infile.name, 'w') if args.inplace is True and args.infile != sys.stdin else args.outfile)
+    write_program(args.infile.name if args.inplace is True and args.infile != sys.stdin else args.outfile, gcode.write)
 
 
 if __name__ == "__main__":
diff --git a/gcodeutils/gcode_stretch.py b/gcodeutils/gcode_stretch.py
index d50819f..7ce2316 100644
--- a/gcodeutils/gcode_stretch.py
+++ b/gcodeutils/gcode_stretch.py
@@ -4,6 +4,7 @@ import sys
 
 from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_program
 from gcodeutils.stretch.stretch import Slic3rStretchFilter, CuraStretchFilter
 
 __author__ = 'olivier'
@@ -24,7 +25,7 @@ def main():
 
     parser.add_argument('infile', nargs='?', type=argparse.FileType('r'), default=sys.stdin,
                         help='Program filename to be modified. Defaults to standard input.')
-    parser.add_argument('outfile', nargs='?', type=argparse.FileType('w'), default=sys.stdout,
+    parser.add_argument('outfile', nargs='?',
                         help='Modified program. Defaults to standard output.')
 
     parser.add_argument('--cross_limit_distance_over_edge_width', type=float, default=5.0,
@@ -76,7 +77,7 @@ def main():
         Slic3rStretchFilter(**vars(args)).filter(gcode)
 
     # write back modified gcode
-    gcode.write(args.outfile)
+    write_program(args.outfile, gcode.write)
 
 
 if __name__ == "__main__":
diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 3068020..2e5ac4f 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -11,6 +11,7 @@ import sys
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_program
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
@@ -155,7 +156,7 @@ def main():
                              'to avoid clogging your extruder.')
     parser.add_argument('infile', nargs='?', type=argparse.FileType('r'), default=sys.stdin,
                         help='Program filename to be modified. Defaults to standard input.')
-    parser.add_argument('outfile', nargs='?', type=argparse.FileType('w'), default=sys.stdout,
+    parser.add_argument('outfile', nargs='?',
                         help='Modified program with temperature gradient. Defaults to standard output.')
 
     parser.add_argument('--min_z_change', '-z', type=float, default=0.1,
@@ -197,7 +198,7 @@ def main():
 
     # Alter and write back modified GCode
     temp_gradient = args.gcode_grad_class(gcode=gcode, **vars(args))
-    temp_gradient.write(args.outfile)
+    write_program(args.outfile, temp_gradient.write)
 
 
 if __name__ == "__main__":
diff --git a/gcodeutils/output.py b/gcodeutils/output.py
new file mode 100644
index 0000000..4837c00
--- /dev/null
+++ b/gcodeutils/output.py
@@ -0,0 +1,55 @@
+# encoding: utf-8
+"""delivery of programs to files"""
+from __future__ import print_function
+
+import os
+import stat
+import sys
+import tempfile
+
+# os.replace overwrites existing files on all platforms but isn't available in Python 2
+replace = getattr(os, 'replace', os.rename)
+
+
+def write_to_file(filename, write):
+    """Call write with a file object and make its content available as filename, but only once it's complete.
+    On any error, filename is left untouched (unless it's something like a device or a named pipe, which has to be
+    written directly)"""
+    filename = os.path.realpath(filename)
+
+    mode = None
+    if os.path.exists(filename):
+        mode = os.stat(filename).st_mode
+        if not stat.S_ISREG(mode):
+            with open(filename, 'w') as output_file:
+                write(output_file)
+            return
+
+    temp_fd, temp_filename = tempfile.mkstemp(prefix='.' + os.path.basename(filename), suffix='.tmp',
+                                              dir=os.path.dirname(filename))
+    try:
+        with os.fdopen(temp_fd, 'w') as output_file:
+            write(output_file)
+            output_file.flush()
+            os.fsync(output_file.fileno())
+
+        # temporary files are private, use the permissions of the replaced file or the ones of a regular new file
+        if mode is None:
+            umask = os.umask(0)
+            os.umask(umask)
+            mode = 0o666 & ~umask
+        os.chmod(temp_filename, stat.S_IMODE(mode))
+
+        replace(temp_filename, filename)
+    except BaseException:
+        os.unlink(temp_filename)
+        raise
+
+
+def write_program(filename, write):
+    """Call write with a file object for filename, or the standard output if there's none"""
+    if filename is None or filename == '-':
+        write(sys.stdout)
+        sys.stdout.flush()
+    else:
+        write_to_file(filename, write)
-- 
2.43.0


From 3c98c0872fbe6c8de0cf11f7d4b5c1969eb8b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 25/53] fix: Cura plugins don't destroy the program when they
 fail

---
 cura_plugins/stretch_plugin.py | 4 ++--
 cura_plugins/tempcal_plugin.py | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/cura_plugins/stretch_plugin.py b/cura_plugins/stretch_plugin.py
index 8612b14..8dd8c76 100644
--- a/cura_plugins/stretch_plugin.py
+++ b/cura_plugins/stretch_plugin.py
@@ -12,6 +12,7 @@ sys.path.append('plugins')
 
 from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_to_file
 from gcodeutils.stretch.stretch import CuraStretchFilter
 
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
@@ -20,5 +21,4 @@ with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
 GCodeToRelativeExtrusionFilter().filter(gcode)
 CuraStretchFilter(stretch_strength=stretch_strength).filter(gcode)  # pylint: disable=undefined-variable
 
-with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    gcode.write(gcode_file)
+write_to_file(filename, gcode.write)  # pylint: disable=undefined-variable
diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..3b7ae86 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -15,10 +15,12 @@ sys.path.append('plugins')
 
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
 from gcodeutils.gcoder import GCode
+from gcodeutils.output import write_to_file
 
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
-with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+gradient = GCodeStepTempGradient(gcode=gcode, start_temp=start_temp,  # pylint: disable=undefined-variable,invalid-name
+                                 end_temp=end_temp, min_z_change=min_z_change,  # pylint: disable=undefined-variable
+                                 steps=steps)  # pylint: disable=undefined-variable
+write_to_file(filename, gradient.write)  # pylint: disable=undefined-variable
-- 
2.43.0


From 3ab4335e2220abebb798cbe888c22556c19d1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 26/53] fix: stretch doesn't walk endlessly around inconsistent
 loops

---
 gcodeutils/stretch/stretch.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 3f374e1..86d2e19 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -136,6 +136,7 @@ class LineIteratorForwardLegacy(object):
         self.lines = lines
         self.increment = 1
         self.stop_on_extrusion_off = True
+        self.wrapped = False
 
         self.logger.debug("started iterator with line_index = %d", self.line_index)
 
@@ -151,6 +152,14 @@ class LineIteratorForwardLegacy(object):
         print('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
+    def wrap_around(self):
+        """Continue at the other end of the loop, which is done only once."""
+        if self.wrapped:
+            self.logger.debug("already wrapped around")
+            raise StopIteration("You've reached the end of the line.")
+        self.wrapped = True
+        self.line_index = self.reset_index_on_limit()
+
     def index_in_valid_range(self):
         return 0 <= self.line_index < len(self.lines)
 
@@ -169,7 +178,7 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
-                self.line_index = self.reset_index_on_limit()
+                self.wrap_around()
                 continue
 
             self.line_index += self.increment
@@ -190,7 +199,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
     def index_setup(self):
         if self.line_index < 1:
-            self.line_index = self.reset_index_on_limit()
+            self.wrap_around()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
@@ -221,8 +230,8 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         self.stop_on_extrusion_off = False
 
     def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
-            self.line_index = self.reset_index_on_limit()
+        if self.index_in_valid_range() and StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
+            self.wrap_around()
 
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
@@ -237,9 +246,9 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
 class LineIteratorBackward(LineIteratorBackwardLegacy):
     def index_setup(self):
         if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
+            self.wrap_around()
         elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+            self.wrap_around()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
@@ -260,9 +269,9 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
 
     def index_setup(self):
         if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
+            self.wrap_around()
         elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+            self.wrap_around()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
-- 
2.43.0


From 8b2392f8d5adc805d4a7623ed9372256974b8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 27/53] fix: loops of Slic3r and Cura programs end with their
 layer

---
 gcodeutils/stretch/stretch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 86d2e19..137e3a9 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -338,11 +338,15 @@ class StretchFilter:
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
+            self.begin_layer()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
                 parse_coordinates(gcode_line, split(gcode_line))
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+    def begin_layer(self):
+        """Called before the lines of a layer are parsed."""
+
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
         """Get cross limited relative stretch for a location."""
         try:
@@ -544,6 +548,10 @@ class Slic3rStretchFilter(StretchFilter):
         self.next_external_perimeter_is_outer = None
         self.current_type_line = None
 
+    def begin_layer(self):
+        # loops may be unfinished at the end of the previous layer
+        self.set_stretch_to_path()
+
     def new_perimeter(self, line, external=False):
 
         if external:
@@ -647,6 +655,10 @@ class CuraStretchFilter(StretchFilter):
         self.line_forward_iterator = CuraLineIteratorForward
         self.line_backward_iterator = CuraLineIteratorBackward
 
+    def begin_layer(self):
+        # loops may be unfinished at the end of the previous layer
+        self.set_stretch_to_path()
+
     def new_perimeter(self, line, external=False, outer=False):
 
         if external:
-- 
2.43.0


From 4c4dafe7521987563967b557354b5849602935e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 28/53] fix: every other part of a Cura program ends a loop

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 137e3a9..887236d 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -722,7 +722,7 @@ class CuraStretchFilter(StretchFilter):
                     self.stop_loop(line)
                     next_line_marker = (False, False)
 
-                elif 'TYPE:FILL' in line.raw:
+                elif 'TYPE:' in line.raw:  # infill, support, skirt...
                     self.stop_loop(line)
 
                 # end loop if we reach the end of the current layer
-- 
2.43.0


From ec7f68e29b3064f675a31bc91bdf06dad0a1c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 29/53] fix: stretched moves keep their comment

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 887236d..242e891 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -439,7 +439,7 @@ class StretchFilter:
         absoluteStretch = relativeStretch * self.thread_maximum_absolute_stretch
         stretchedPoint = location.dropAxis() + absoluteStretch
 
-        result = Line()
+        result = Line(original_line.raw)
         result.command = original_line.command
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
-- 
2.43.0


From 6b5f2caf9c3d3577eab98c580d6d951f29f496ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 30/53] fix: interrupting a walk isn't mistaken for a layer
 without height

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78d71ec..e31c434 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -51,7 +51,7 @@ class GCodeIterator(object):
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
                 is_printed = True
-            except:
+            except (TypeError, ValueError):
                 layer_number = parsed_layer_number
                 is_printed = False
 
-- 
2.43.0


From b02e88cf13679114bf684fc56747e6e0900fb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 31/53] fix: stretch diagnostics don't end up in the program
 written to the standard output

---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 242e891..f4928c9 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -149,7 +149,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def wrap_around(self):
@@ -209,7 +209,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -220,7 +220,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -239,7 +239,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -258,7 +258,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -281,7 +281,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From c7cdd2444ffc3d9108b1e5164205805babf56cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 32/53] fix: Cura profile is read without the marker of a loop
 ending at its line

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index f4928c9..7892bfa 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -647,7 +647,7 @@ class CuraStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
-    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(.*)$')
+    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(\S*)')
 
     def __init__(self, **kwargs):
         StretchFilter.__init__(self, **kwargs)
-- 
2.43.0


From 73ab9f4af945285e3e03176742ee5e019a93bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 33/53] fix: gcode_tempcal doesn't repeat a temperature after
 one out of the security bounds

---
 gcodeutils/gcode_tempcal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 2e5ac4f..0d61729 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -94,11 +94,14 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                         # don't generate temperature change if same as last layer
                         if target_temp != self.last_target_temperature:
-                            self.last_target_temperature = target_temp
-
                             logging.debug("target temp for layer #%d (height %.2fmm) is %.1f°C", layer_idx,
                                           self.current_z, target_temp)
-                            print(self.generate_temperature_gcode(target_temp), file=output_file)
+
+                            # temperatures out of the security bounds are not applied
+                            temperature_gcode = self.generate_temperature_gcode(target_temp)
+                            if temperature_gcode:
+                                self.last_target_temperature = target_temp
+                                print(temperature_gcode, file=output_file)
 
                 for line in layer:
                     print(line.raw, file=output_file)
-- 
2.43.0


From 890862b43bf57f7e57fa394f57f7a62bc19157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 34/53] fix: arcs pushing less filament than their segments
 leave the extruder position as asked

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index b1493bc..70bc6b8 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -338,7 +338,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             op1.e=end_point.e-extrusions['total']['filament']+arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
-            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
+            if abs(rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
                 op2.e = op2.current_e = end_point.e
-- 
2.43.0


From 1170d6fe79feb5fbb931abaf53db7f6672ccdadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 35/53] fix: lines of programs in inches are rebuilt in inches

---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 gcodeutils/gcoder.py               | 9 ++++++---
 gcodeutils/stretch/stretch.py      | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 70bc6b8..bc5cf16 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -312,6 +312,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         error, circle = self.get_circle()
         extrusions = self.get_distances() if end_point.e is not None else None
         op1 = Line()
+        op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         # locations of the program may be shifted by G92
@@ -340,6 +341,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             rel = arc_extrusion_length/extrusions['total']['filament']
             if abs(rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
+                op2.imperial = end_point.imperial
                 op2.command="G92"
                 op2.e = op2.current_e = end_point.e
                 unsplit(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 70a2414..e5f7cee 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -48,7 +48,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
                  'raw', 'command', 'is_move',
-                 'relative', 'relative_e',
+                 'relative', 'relative_e', 'imperial',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
                  'gcview_end_vertex')
@@ -166,10 +166,12 @@ def split(line):
 def unsplit(line):
     format = ""
     arg = []
+    # arguments are held in mm, lines in inches are written with 2 more digits
+    unit_factor, digits = (25.4, 5) if line.imperial else (1, 3)
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
-            format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
-            arg += [bit.upper(), getattr(line, bit)]
+            format += " {}{:.%df}" % (digits + 2 if bit == 'e' else digits)
+            arg += [bit.upper(), getattr(line, bit) / unit_factor]
     kept = gcode_kept_exp.findall(line.raw or "")
     line.raw = " ".join([line.command + format.format(*arg)] + kept)
 
@@ -506,6 +508,7 @@ class GCode(object):
                     current_tool = int(line.command[1:])
 
                 if line.command[0] == "G":
+                    line.imperial = imperial
                     parse_coordinates(line, split_raw, imperial)
 
                 # Compute current position
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 7892bfa..5091416 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -341,7 +341,7 @@ class StretchFilter:
             self.begin_layer()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def begin_layer(self):
@@ -441,6 +441,7 @@ class StretchFilter:
 
         result = Line(original_line.raw)
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From a9283d68766dceedd479744a832d50c85ffbc031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 36/53] fix: rounding errors of a height aren't mistaken for a
 range of heights

---
 gcodeutils/gcode_tempcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 0d61729..67a48d2 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -70,7 +70,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
             "temperature gradient from %.1f°C, altitude %.2fmm to %.1f°C, altitude %.2fmm ", self.start_temp, self.zmin,
             self.end_temp, self.zmax)
 
-        if self.zmin >= self.zmax:
+        # (heights reached by relative moves may differ by rounding errors)
+        if round(self.zmin, 3) >= round(self.zmax, 3):
             raise RuntimeError(
                 "Height is too small to create temperature gradient (all operation are below {}mm ?)".format(
                     self.min_z_change))
-- 
2.43.0


From 7fc5e15fc465687e40c28f301e1d6b9e9403a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 37/53] fix: flat program and line index follow the layers
 modified by filters

---
 gcodeutils/filter/filter.py   | 1 +
 gcodeutils/gcoder.py          | 6 ++++++
 gcodeutils/stretch/stretch.py | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/gcodeutils/filter/filter.py b/gcodeutils/filter/filter.py
index b388831..9ce85b2 100644
--- a/gcodeutils/filter/filter.py
+++ b/gcodeutils/filter/filter.py
@@ -9,6 +9,7 @@ class GCodeFilter(object):
 
     def filter(self, gcode):
         self.parse_gcode(gcode, self.opcode_filter)
+        gcode.update_index()
 
     def parse_gcode(self, gcode, opcode_filter):
         for layer in gcode.all_layers:
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e5f7cee..50f9924 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -391,6 +391,12 @@ class GCode(object):
             self.lines.insert(start_index, gline)
         return commands[::-1]
 
+    def update_index(self):
+        """Describe the lines of all layers again after the layers were modified directly"""
+        self.lines = [line for layer in self.all_layers for line in layer]
+        self.layer_idxs = array('I', [i for i, layer in enumerate(self.all_layers) for _ in layer])
+        self.line_idxs = array('I', [i for layer in self.all_layers for i in range(len(layer))])
+
     def append(self, command, store=True):
         command = command.strip()
         if not command:
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 5091416..00b82ff 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -344,6 +344,8 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+        self.gcode.update_index()
+
     def begin_layer(self):
         """Called before the lines of a layer are parsed."""
 
-- 
2.43.0


From de6a93fd74c17a7bac31943177e41bc080f266a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 38/53] fix: a load which failed doesn't change the layers of
 the next load

---
 gcodeutils/gcoder.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 50f9924..1321a61 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -433,6 +433,8 @@ class GCode(object):
         total_e = self.total_e
         max_e = self.max_e
 
+        est_layer_height = self.est_layer_height
+
         # Store this one out of the build_layers scope for efficiency
         cur_layer_has_extrusion = False
 
@@ -684,19 +686,19 @@ class GCode(object):
                     # broken
                     if cur_z != prev_z:
                         if prev_z is not None and last_layer_z is not None:
-                            offset = self.est_layer_height if self.est_layer_height else 0.01
+                            offset = est_layer_height if est_layer_height else 0.01
                             if abs(prev_z - last_layer_z) < offset:
-                                if self.est_layer_height is None:
+                                if est_layer_height is None:
                                     zs = sorted([l.z for l in all_layers if l.z is not None])
                                     heights = [round(zs[i + 1] - zs[i], 3) for i in range(len(zs) - 1)]
                                     heights = [height for height in heights if height]
                                     if len(heights) >= 2:
-                                        self.est_layer_height = heights[1]
+                                        est_layer_height = heights[1]
                                     elif heights:
-                                        self.est_layer_height = heights[0]
+                                        est_layer_height = heights[0]
                                     else:
-                                        self.est_layer_height = 0.1
-                                base_z = round(prev_z - (prev_z % self.est_layer_height), 2)
+                                        est_layer_height = 0.1
+                                base_z = round(prev_z - (prev_z % est_layer_height), 2)
                             else:
                                 base_z = round(prev_z, 2)
                         else:
@@ -748,6 +750,7 @@ class GCode(object):
         self.current_e = current_e
         self.offset_e = offset_e
         self.max_e = max_e
+        self.est_layer_height = est_layer_height
         self.total_e = total_e
 
         # Finalize layers
-- 
2.43.0


From 67b6546af1e8240e52b236faa7db9ee5dbe92f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 39/53] fix: wider angles of clockwise runs aren't accepted as
 parts of an arc

---
 gcodeutils/filter/arc_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index bc5cf16..abd5a7c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -202,7 +202,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         """
         phase_diffs = self.get_phase_diffs(circle)
         phase_diff_avg = sum(phase_diffs) / len(phase_diffs)
-        phase_errors = [phase_diff - phase_diff_avg for phase_diff in phase_diffs]
+        # wider angles are errors, whatever the direction
+        phase_errors = [abs(phase_diff) - abs(phase_diff_avg) for phase_diff in phase_diffs]
         return phase_errors
 
     def get_circle(self):
-- 
2.43.0


From 41eb0b822cdca9690b896995f9eef45cff219a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 40/53] fix: circles which are closed up to the written
 precision aren't turned into tiny arcs

---
 gcodeutils/filter/arc_optimizer.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index abd5a7c..baa4046 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -21,7 +21,7 @@ MAX_RADIUS = 200              # mm, maximum radius of the detectable circle
 ALIGNMENT_ERROR = 0.015       # 15 µm, max. offset a point might be off of the resulting circle
 PHASE_ERROR = 5*cmath.pi/180  # 5° in radian, max deviation of the angle steps forming a circle
 EXTRUSION_ERROR = 0.15        # 15%, maximum deviation of the extrusion for the segments
-MIN_GAP = 0.005               # 5 µm, min. distance between the ends of an arc which isn't a complete circle
+MIN_GAP = 0.005               # 5 µm, min. distance along the circle between the ends of an incomplete one
 EPSILON = 0.000001            # epsilon for zero comapriosn of float. everything less than will be treated as zero
 
 EXTRUSION_CORRECTION_LIMIT=0.01 # 1%, if the length of all segments deviates more than this from the legnth of the arc
@@ -227,10 +227,25 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         phase_diffs = self.get_phase_diffs(circle)
         if any([phase_diff * circle.direction <= 0 for phase_diff in phase_diffs]):
             return True, circle
-        # a single arc does at most one turn, and closed circles have to end exactly where they started
+        # a single arc does at most one turn, and closed circles have to end exactly where they started (as written)
         sweep = abs(sum(phase_diffs))
-        gap = circle.start.distance_to(circle.end)
-        return sweep > 2 * cmath.pi + EPSILON or (sweep > cmath.pi and EPSILON < gap < MIN_GAP), circle
+        asked, written = self.get_end_point()
+        closed = circle.start.distance_to(circle.end + written - asked) < EPSILON
+        gap = (2 * cmath.pi - sweep) * circle.radius
+        return sweep > 2 * cmath.pi + EPSILON or (gap < MIN_GAP and not closed), circle
+
+    def get_end_point(self):
+        """
+        get the end point in the coordinates of the program (which may be shifted by G92)
+        :return: a tuple consisting of the end point which was asked for, and of the one which can be written
+        """
+        asked = [next(getattr(line, axis) for line in reversed(self.queue) if getattr(line, axis) is not None)
+                 for axis in ('x', 'y')]
+        if self.queue[-1].imperial:
+            written = [round(coordinate / 25.4, 5) * 25.4 for coordinate in asked]
+        else:
+            written = [round(coordinate, 3) for coordinate in asked]
+        return Point(*asked), Point(*written)
 
     def get_distances(self):
         """
@@ -316,9 +331,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        # locations of the program may be shifted by G92
-        op1.x = round(next(line.x for line in reversed(self.queue) if line.x is not None), 3)
-        op1.y = round(next(line.y for line in reversed(self.queue) if line.y is not None), 3)
+        _, written = self.get_end_point()
+        op1.x = written.x
+        op1.y = written.y
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
-- 
2.43.0


From d0a582eb8cb20d646d281282e430994511fdb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 41/53] fix: a circle at the very end of a program is optimized
 too

---
 gcodeutils/filter/arc_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index baa4046..f012e85 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -121,6 +121,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         self.valid_circle = False
         for layer in gcode.all_layers:
             self.parse_layer(layer, opcode_filter)
+        if self.valid_circle:
+            # the program ends with a circle, there's no element which invalidated it
+            self.queue.append(None)
+            self.queue = self.to_gcode()[:-1]
         if len(self.queue) > 0:
             layer += self.queue
             self.queue = []
-- 
2.43.0


From a490a1b9e585ca370b9f817ef84dd191719e0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 42/53] fix: stretching a point by more than a millimeter
 doesn't turn its extrusion negative

---
 gcodeutils/stretch/stretch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 00b82ff..f258f81 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -452,6 +452,9 @@ class StretchFilter:
         # TODO improve new extrusion length computation. It's clearly a very rough estimate
         if original_line.e is not None:
             result.e = original_line.e * (1 - abs(absoluteStretch))
+            if abs(absoluteStretch) > 1:
+                # the estimate is only good for small distances, and must not change the direction of the extruder
+                result.e = 0.0
 
         unsplit(result)
 
-- 
2.43.0


From 4b6061c6682f1c816d273d7851fdd96b315ed711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 43/53] fix: a program with one more command than another one
 is not equal to it

---
 gcodeutils/gcoder.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 1321a61..2fca1e9 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -813,8 +813,8 @@ class GCode(object):
         if not isinstance(other, GCode):
             raise ValueError
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
 
         for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
             # checking the raw representation of lines is a bit naive
@@ -822,17 +822,11 @@ class GCode(object):
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
+        common = min(len(meaningful_lines1), len(meaningful_lines2))
+        if len(meaningful_lines1) > common:
+            return "Remaining line(s) for self: '{}'".format(meaningful_lines1[common])
+        if len(meaningful_lines2) > common:
+            return "Remaining line(s) for other: '{}'".format(meaningful_lines2[common])
 
         return None
 
@@ -840,26 +834,17 @@ class GCode(object):
         if not isinstance(other, GCode):
             return False
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
+
+        if len(meaningful_lines1) != len(meaningful_lines2):
+            return False
 
         for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return False
-
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From f92f279305b62aff37c42a38d53e51ebcb7cf568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 44/53] fix: lines with different arguments of M codes are not
 equal

---
 gcodeutils/gcoder.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 2fca1e9..339427d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -31,6 +31,7 @@ gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.
 # comments, and parameters which aren't parsed, are kept as is when a line is rebuilt
 gcode_kept_exp = re.compile(r"\([^\(\)]*\)|;.*|[abcdhklo-su-w][-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)", re.IGNORECASE)
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
+gcode_word_exp = re.compile(r"([a-z])([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))?")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
 move_gcodes = ["G0", "G1", "G2", "G3"]
@@ -68,17 +69,20 @@ class PyLine(object):
         if self.command != other.command:
             return False
 
-        for bit in gcode_possible_arguments:
-            selfbit = getattr(self, bit)
-            otherbit = getattr(other, bit)
+        selfbits = arguments(self)
+        otherbits = arguments(other)
+
+        if set(selfbits) != set(otherbits):
+            return False
+
+        for bit in selfbits:
+            selfbit = selfbits[bit]
+            otherbit = otherbits[bit]
 
             if selfbit is None and otherbit is None:
                 continue
 
-            if selfbit is None and otherbit is not None:
-                return False
-
-            if selfbit is not None and otherbit is None:
+            if selfbit is None or otherbit is None:
                 return False
 
             if math.fabs(selfbit - otherbit) > self.EQ_EPSILON:
@@ -163,6 +167,19 @@ def split(line):
     return split_raw
 
 
+def arguments(line):
+    """Return all arguments of a line, as they were parsed or, like those of M codes, as they are written"""
+    words = gcode_word_exp.findall(gcode_strip_comment_exp.sub("", line.raw or "").lower())
+    if words and words[0][0] == "n":
+        del words[0]
+    # the first word is the command
+    result = dict((code, float(value) if value else None) for code, value in words[1:])
+    for bit in gcode_possible_arguments:
+        if getattr(line, bit) is not None:
+            result[bit] = getattr(line, bit)
+    return result
+
+
 def unsplit(line):
     format = ""
     arg = []
-- 
2.43.0


From 2a84cd3a9d56830c0359d6de6dab90bac7544894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 45/53] fix: programs of light lines were all equal

---
 gcodeutils/gcoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 339427d..5baffd1 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -868,6 +868,9 @@ class GCode(object):
         """return only non comment lines"""
         for layer in self.all_layers:
             for line in layer:
+                if self.line_class != Line:
+                    # light lines don't know their command
+                    line = raw_to_line(line.raw)
                 if line.command is not None:
                     yield line
 
-- 
2.43.0


From 8c3720724d2ea2b45338121ca2a79ca906de05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 46/53] fix: let gcoder report on programs with current
 versions of Python

The mode 'rU' is not accepted since Python 3.11; newlines are recognized without it
---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5baffd1..49ba2ca 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -886,7 +886,7 @@ def main():
 
     print("Line object size:", sys.getsizeof(Line("G0 X0")))
     print("Light line object size:", sys.getsizeof(LightLine("G0 X0")))
-    gcode = GCode(open(sys.argv[1], "rU"))
+    gcode = GCode(open(sys.argv[1]))
 
     print("Dimensions:")
     xdims = (gcode.xmin, gcode.xmax, gcode.width)
-- 
2.43.0


From fcce35bd48f5805fa641bbec43a36996a15bd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 47/53] fix: estimate durations from the distances really
 travelled

Relative moves were taken for absolute ones, and moves after G92, G28 or an arc were measured from where the last
straight move ended
---
 gcodeutils/gcoder.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 49ba2ca..69cfa44 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -475,10 +475,10 @@ class GCode(object):
             # get device caps from firmware: max speed, acceleration/axis
             # (including extruder)
             # calculate the maximum move duration accounting for above ;)
-            lastx = lasty = lastz = laste = lastf = 0.0
+            lastf = 0.0
             lastdx = 0
             lastdy = 0
-            x = y = e = f = 0.0
+            f = 0.0
             currenttravel = 0.0
             moveduration = 0.0
             totalduration = 0.0
@@ -509,6 +509,9 @@ class GCode(object):
             # Use a heavy copy of the light line to preprocess
             line = get_line(true_line)
             split_raw = split(line)
+            # Where this line starts from
+            lastx, lasty, lastz, laste = current_x, current_y, current_z, current_e
+
             if line.command:
                 # Update properties
                 if line.is_move:
@@ -623,12 +626,8 @@ class GCode(object):
 
                     # Compute duration
                     if line.command == "G0" or line.command == "G1":
-                        x = line.x if line.x is not None else lastx
-                        y = line.y if line.y is not None else lasty
-                        z = line.z if line.z is not None else lastz
-                        e = line.e if line.e is not None else laste
                         # mm/s vs mm/m => divide by 60
-                        f = line.f / 60.0 if line.f is not None else lastf
+                        f = current_f / 60.0
 
                         # given last feedrate and current feedrate calculate the
                         # distance needed to achieve current feedrate.
@@ -645,17 +644,17 @@ class GCode(object):
                         # The following code tries to fix it by forcing a full
                         # reacceleration if this move is in the opposite direction
                         # of the previous one
-                        dx = x - lastx
-                        dy = y - lasty
+                        dx = current_x - lastx
+                        dy = current_y - lasty
                         if dx * lastdx + dy * lastdy <= 0:
                             lastf = 0
 
                         currenttravel = math.hypot(dx, dy)
                         if currenttravel == 0:
                             if line.z is not None:
-                                currenttravel = abs(line.z) if line.relative else abs(line.z - lastz)
+                                currenttravel = abs(current_z - lastz)
                             elif line.e is not None:
-                                currenttravel = abs(line.e) if line.relative_e else abs(line.e - laste)
+                                currenttravel = abs(current_e - laste)
                         # Feedrate hasn't changed, no acceleration/decceleration planned
                         if f == lastf:
                             moveduration = currenttravel / f if f != 0 else 0.
@@ -678,10 +677,6 @@ class GCode(object):
 
                         totalduration += moveduration
 
-                        lastx = x
-                        lasty = y
-                        lastz = z
-                        laste = e
                         lastf = f
                     elif line.command == "G4":
                         moveduration = P(line)
-- 
2.43.0


From ea3d0af0d2a1736e06194284a52fc30a71cceee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 48/53] fix: include where extruding moves start in the
 bounding box

The first move of every path starts where a travel ended, which is part of what is printed
---
 gcodeutils/gcoder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 69cfa44..c7e2b6f 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -611,11 +611,11 @@ class GCode(object):
                     if line.is_move:
                         if line.extruding:
                             if line.current_x is not None:
-                                xmin_e = min(xmin_e, line.current_x)
-                                xmax_e = max(xmax_e, line.current_x)
+                                xmin_e = min(xmin_e, lastx, line.current_x)
+                                xmax_e = max(xmax_e, lastx, line.current_x)
                             if line.current_y is not None:
-                                ymin_e = min(ymin_e, line.current_y)
-                                ymax_e = max(ymax_e, line.current_y)
+                                ymin_e = min(ymin_e, lasty, line.current_y)
+                                ymax_e = max(ymax_e, lasty, line.current_y)
                         if max_e <= 0:
                             if line.current_x is not None:
                                 xmin = min(xmin, line.current_x)
-- 
2.43.0


From 54ea0cebd804c75405dbf885e4fd44e55dbecbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 49/53] fix: don't count priming as a layer

What's extruded before any height is chosen is no printed layer, and isn't numbered as one elsewhere
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index c7e2b6f..e20a833 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -315,7 +315,8 @@ class GCode(object):
     home_pos = property(_get_home_pos, _set_home_pos)
 
     def _get_layers_count(self):
-        return len(self.all_zs)
+        # None stands for what's extruded before any height is chosen, e.g. to prime the nozzle
+        return len(self.all_zs.difference(set([None])))
 
     layers_count = property(_get_layers_count)
 
-- 
2.43.0


From 0bb6bcd5e7c6efacbbcb5f20a7e0e758227fbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:07 +0000
Subject: [PATCH 50/53] fix: count moves which extrude while they change the
 height to the layer they reach

They were counted to the layer before, so that e.g. spirals lost their last layer
---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e20a833..4e5e90e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -602,7 +602,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
                         offset_e = current_e - line.e
                 line.current_e = current_e
@@ -736,6 +735,8 @@ class GCode(object):
 
             if build_layers:
                 cur_lines.append(true_line)
+                if line.extruding:
+                    cur_layer_has_extrusion = True
                 layer_idxs.append(layer_id)
                 line_idxs.append(layer_line)
                 layer_line += 1
-- 
2.43.0


From 60c3b8ce720a7213a8303ef9b1e264ad9a95f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 51/53] fix: count heights which differ by rounding errors as
 one layer

Relative moves lead to 0.6000000000000001 instead of 0.6
---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 4e5e90e..e326ea4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -316,7 +316,7 @@ class GCode(object):
 
     def _get_layers_count(self):
         # None stands for what's extruded before any height is chosen, e.g. to prime the nozzle
-        return len(self.all_zs.difference(set([None])))
+        return len(set(round(z, 3) for z in self.all_zs if z is not None))
 
     layers_count = property(_get_layers_count)
 
-- 
2.43.0


From 5b1b44c1161637adf12c872aa06c05900c966760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:15 +0000
Subject: [PATCH 52/53] fix: fail when the report can't be written to a closed
 standard output

---
 gcodeutils/gcoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e326ea4..3b356d8 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -895,6 +895,7 @@ def main():
     print("Filament used: %0.02fmm" % gcode.filament_length)
     print("Number of layers: %d" % gcode.layers_count)
     print("Estimated duration: %s" % gcode.estimate_duration()[1])
+    sys.stdout.flush()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 6fc37fd61525806dc00f7289e839ec836ef31ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:07 +0000
Subject: [PATCH 53/53] fix: recognise layers at half hundredths of a
 millimetre reached by relative moves

Relative moves reach heights with rounding errors, so 0.975 mm was rounded to
0.97 or 0.98 mm depending on how it was reached, and was two printed layers.
---
 gcodeutils/gcoder.py         | 3 ++-
 gcodeutils/visit/iterator.py | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 3b356d8..a5c7fb5 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -712,7 +712,8 @@ class GCode(object):
                                         est_layer_height = 0.1
                                 base_z = round(prev_z - (prev_z % est_layer_height), 2)
                             else:
-                                base_z = round(prev_z, 2)
+                                # (relative moves reach heights with rounding errors)
+                                base_z = round(round(prev_z, 6), 2)
                         else:
                             base_z = prev_z
 
diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index e31c434..35218d8 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,11 +35,16 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None)
+            set(self.__round(z) for z in self.__gcode.all_zs if z is not None)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
 
+    def __round(self, z):
+        """Round a height, which relative moves may have reached with rounding errors
+        """
+        return round(round(z, 6), self.__digits_of_precision)
+
     def accept(self, visitor):
         """Walk the GCode structure and visit each layer and each line
         """
@@ -48,7 +53,7 @@ class GCodeIterator(object):
 
         for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
-                layer_z = round(parsed_layer.z, self.__digits_of_precision)
+                layer_z = self.__round(parsed_layer.z)
                 layer_number = self.__all_zs.index(layer_z)
                 is_printed = True
             except (TypeError, ValueError):
-- 
2.43.0

