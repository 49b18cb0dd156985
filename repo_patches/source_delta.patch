From 7e9483628f203a5edfbe719ad9e7347830952a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:08 +0000
Subject: [PATCH 01/79] fix: keep numbers within their columns in TOUGH records

Negative values (or values with three-digit exponents) are one character too
long for the e-format of several records: all the following values of the
record were shifted by one column.
---
 toughio/_io/input/tough/_helpers.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..88d06a0 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -259,11 +259,19 @@ def write_record(data, fmt, multi=False):
 
     def to_str(x, fmt):
         x = "" if x is None else x
-        return (
-            fmt.format(x)
-            if not isinstance(x, str)
-            else fmt.replace("g", "").replace("e", "").format(x)
-        )
+        if isinstance(x, str):
+            return fmt.replace("g", "").replace("e", "").format(x)
+
+        out = fmt.format(x)
+        if fmt.endswith("e}"):
+            # Lower the precision of numbers that do not fit within the column
+            width, precision = fmt[3:-2].split(".")
+            precision = int(precision)
+            while len(out) > int(width) and precision > 0:
+                precision -= 1
+                out = "{:>{}.{}e}".format(x, width, precision)
+
+        return out
 
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
-- 
2.43.0


From cbe1bcbf6f7e8224c260bfdb13bf71ed006a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 02/79] fix: default of the solver type was stored under an
 unknown key

Writing block SOLVR without key 'method' raised KeyError.
---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From 6b29474775e7376f6b8446afb39a470e119c93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 03/79] fix: block SELEC could not be written without floats or
 integers

---
 toughio/_io/input/tough/_write.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..577d5c1 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -486,10 +486,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
-        data["floats"] = parameters["selections"]["floats"]
+    data["floats"] = parameters["selections"].get("floats")
 
     # Check floats and overwrite IE(1)
     if data["floats"] is not None and len(data["floats"]):
-- 
2.43.0


From 8f85a416055d984d4a9b70dc4a013d555980f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 04/79] fix: block SELEC without IE(1) could not be read

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..718d306 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -363,7 +363,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
-- 
2.43.0


From decc5cce87bd5ebc5724126d48b5d12cc4795bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 05/79] fix: elements and connections with optional parameters
 left undefined

Elements without center, connections without nodal distances and elements with
a NumPy integer as material could not be written.
---
 toughio/_io/input/tough/_write.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 577d5c1..67c7e80 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -845,7 +845,7 @@ def _write_eleme(parameters):
 
         material = (
             "{:>5}".format(data["material"])
-            if isinstance(data["material"], int)
+            if isinstance(data["material"], (int, numpy.integer))
             else data["material"]
         )
         values = [
@@ -856,10 +856,8 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
         ]
+        values += list(data["center"]) if data["center"] is not None else []
         out += write_record(values, fmt)
 
     return out
@@ -914,8 +912,8 @@ def _write_conne(parameters):
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            data["nodal_distances"][0] if data["nodal_distances"] is not None else None,
+            data["nodal_distances"][1] if data["nodal_distances"] is not None else None,
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 0f395901a7f5c1776a70da9d20d1ff2619d8be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 06/79] fix: reading of the title of an input file

Reading a file without block ROCKS never ended. Besides, titles that start
with the name of a block (e.g. MULTIPHASE FLOW) were read as this block.
---
 toughio/_io/input/tough/_read.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 718d306..6377d23 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -45,14 +45,20 @@ def read_buffer(f, label_length):
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
         title = [line]
         while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
-            else:
+            i = f.tell()
+            line = f.readline()
+            if not line:
+                # No block ROCKS: do not look for a title
+                i = 0
                 break
-
-        parameters["title"] = title[0] if len(title) == 1 else title
-    f.seek(0)
+            elif line.strip().startswith("ROCKS"):
+                parameters["title"] = title[0] if len(title) == 1 else title
+                break
+            else:
+                title.append(line.strip())
+        f.seek(i)
+    else:
+        f.seek(0)
 
     # Loop over blocks
     # Some blocks (INCON, INDOM, PARAM) need to rewind to previous line but tell and seek are disabled by next
-- 
2.43.0


From 5a9b305ab3190362e0f6c90367231ad4d8e27aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 07/79] fix: rocks_order given as a tuple or an array

---
 toughio/_io/input/tough/_write.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 67c7e80..b9966a2 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -162,7 +162,7 @@ def _write_rocks(parameters):
     """Write ROCKS block data."""
     # Reorder rocks
     if parameters["rocks_order"] is not None:
-        order = parameters["rocks_order"]
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -290,8 +290,8 @@ def _write_flac(parameters):
     data.update(parameters["flac"])
 
     # Reorder rocks
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -531,8 +531,8 @@ def _write_selec(parameters):
 @block("INDOM", multi=True)
 def _write_indom(parameters):
     """Write INDOM block data."""
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
-- 
2.43.0


From af10f0bbc3bbd9406fab8383e5b76983f4cf6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 08/79] fix: diffusion given as an array

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index b9966a2..2975e6b 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -347,7 +347,7 @@ def _write_multi(parameters):
     values[2] = parameters["n_phase"] if parameters["n_phase"] else values[2]
 
     # Handle diffusion
-    if parameters["diffusion"]:
+    if parameters["diffusion"] is not None and len(parameters["diffusion"]):
         values[3] = 8
         parameters["n_phase"] = values[2]  # Save for later check
 
-- 
2.43.0


From 8cc86856872932d5360afd8938447deaa36f52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 09/79] fix: parameter creep of block FLAC read as an integer

It is a boolean: the parameters read could not be written.
---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 6377d23..bf4d3a5 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -208,7 +208,7 @@ def _read_flac(f, rocks_order):
     # Record 1
     line = next(f)
     data = read_record(line, fmt[1])
-    flac["flac"]["creep"] = data[0]
+    flac["flac"]["creep"] = bool(data[0])
     flac["flac"]["porosity_model"] = data[1]
     flac["flac"]["version"] = data[2]
 
-- 
2.43.0


From c1c40f0db3543b9139e205b053ee2b71155fad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 10/79] fix: number of mass components of block MULTI was not
 read

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index bf4d3a5..4098f22 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -245,6 +245,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4]:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 7d68d1ef82be94faf582409581eac59d3401d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 11/79] fix: elements without material could not be read

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 4098f22..e37b0cc 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -616,11 +616,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3].strip() if data[3] else ""
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
-- 
2.43.0


From 6d91ff39952dcd952da29e72b8d1485b2157b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 12/79] fix: tables of specific enthalpy of block GENER

Components of a same generator could not be read when only some have a
table of specific enthalpy.
---
 toughio/_io/input/tough/_read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index e37b0cc..a88ce93 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -503,6 +503,9 @@ def _read_gener(f, label_length):
                         table += prune_nones_list(data)
 
                     tmp[key] = [table]
+
+                if not itab:
+                    tmp["specific_enthalpy"] = [None]
             else:
                 tmp.update(
                     {
-- 
2.43.0


From ae723b3dafc8d4c587585237c81516ad08ed9b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 13/79] fix: labels longer than 5 characters in blocks FOFT,
 COFT and GOFT

They were truncated to 5 (10) characters.
---
 toughio/_common.py                |  6 +++---
 toughio/_io/input/tough/_write.py | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..bcbacac 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
+    "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 2975e6b..62390c6 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -608,11 +608,13 @@ def _write_times(parameters):
 @block("FOFT", multi=True)
 def _write_foft(parameters):
     """Write FOFT block data."""
+    values = [x for x in parameters["element_history"]]
+
     # Formats
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    label_length = min(max([5] + [len(x) for x in values]), 9)
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -621,11 +623,13 @@ def _write_foft(parameters):
 @block("COFT", multi=True)
 def _write_coft(parameters):
     """Write COFT block data."""
+    values = [x for x in parameters["connection_history"]]
+
     # Format
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    label_length = min(max([5] + [len(x) // 2 for x in values]), 9)
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -634,11 +638,13 @@ def _write_coft(parameters):
 @block("GOFT", multi=True)
 def _write_goft(parameters):
     """Write GOFT block data."""
+    values = [x for x in parameters["generator_history"]]
+
     # Format
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
+    label_length = min(max([5] + [len(x) for x in values]), 9)
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["generator_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
-- 
2.43.0


From bd7d6de9aa8bbd97e2cfa5be276ffb0c983c4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:01 +0000
Subject: [PATCH 14/79] fix: block following block OUTPU without variables was
 skipped

---
 toughio/_io/input/tough/_read.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index a88ce93..4a7fa21 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -113,7 +113,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -561,7 +561,7 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
@@ -570,7 +570,12 @@ def _read_outpu(f):
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+
+        i = fh.tell()
         line = next(f).strip()
+        if not line.isdigit():
+            # No variables, rewind to next block
+            fh.seek(i)
 
     # Variables
     names = {}
-- 
2.43.0


From d480b6b1208c3203f64933f60fd306702c8948a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:01 +0000
Subject: [PATCH 15/79] fix: time steps of block PARAM that are blank or not an
 integer

A constant time step was truncated to an integer, and a blank field could not
be read. A blank table of time steps was read as an empty list and written
back as a null time step.
---
 toughio/_io/input/tough/_read.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 4a7fa21..d319e38 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -305,17 +305,19 @@ def _read_param(f, fh):
         }
     )
 
-    t_steps = int(data[2])
-    if t_steps >= 0.0:
+    t_steps = data[2]
+    if t_steps is None or t_steps >= 0.0:
         param["options"]["t_steps"] = t_steps
     else:
         param["options"]["t_steps"] = []
-        for _ in range(-t_steps):
+        for _ in range(int(-t_steps)):
             line = next(f)
             data = read_record(line, fmt[3])
             param["options"]["t_steps"] += prune_nones_list(data)
         if len(param["options"]["t_steps"]) == 1:
             param["options"]["t_steps"] = param["options"]["t_steps"][0]
+        elif not param["options"]["t_steps"]:
+            param["options"]["t_steps"] = None
 
     # Record 3
     line = next(f)
-- 
2.43.0


From 8a21bb44ce1c7f3eb2056bc69936faccd43efc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:30 +0000
Subject: [PATCH 16/79] fix: absence of START in an input file was not read

Writing back the parameters read added START to the file.
---
 toughio/_io/input/tough/_read.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index d319e38..733a137 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -131,6 +131,10 @@ def read_buffer(f, label_length):
         elif line.startswith("ENDCY"):
             break
 
+    # Parameter start is True by default
+    if "options" in parameters.keys() and "start" not in parameters.keys():
+        parameters["start"] = False
+
     return parameters
 
 
-- 
2.43.0


From 87d7355f5f50228c668ad0bff57f162b1bf92878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 17/79] fix: NumPy scalars and selections without integers in
 JSON input files

---
 toughio/_io/input/json/_json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..e863469 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -39,7 +39,7 @@ def read(filename):
     if "more_options" in parameters.keys():
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "selections" in parameters.keys():
+    if (parameters.get("selections") or {}).get("integers") is not None:
         parameters["selections"]["integers"] = to_int(
             parameters["selections"]["integers"]
         )
@@ -63,14 +63,14 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, (numpy.bool_, numpy.integer, numpy.floating)):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-            return x.tolist()
+            return jsonify(x.tolist())
         elif isinstance(x, dict):
-            return {k: jsonify(v) for k, v in x.items()}
+            return {jsonify(k): jsonify(v) for k, v in x.items()}
         else:
             return x
 
-- 
2.43.0


From 65868312086b13dbc05ba405cffc180981572d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 18/79] fix: do not truncate JSON input file when parameters
 are not serializable

---
 toughio/_io/input/json/_json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index e863469..b15ca9e 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -74,7 +74,10 @@ def write(filename, parameters):
         else:
             return x
 
+    # Serialize before opening to not lose an existing file if it fails
+    parameters = deepcopy(parameters)
+    parameters = jsonify(parameters)
+    buffer = json.dumps(parameters, indent=4)
+
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(buffer)
-- 
2.43.0


From 10127ecc70def179b890ab3a371870fd62f9bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 19/79] fix: records of MOP and MOMOP without trailing blanks
 could not be read

---
 toughio/_io/input/tough/_read.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 733a137..51ed2cf 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -291,7 +291,7 @@ def _read_param(f, fh):
         "effective_strength_vapor": data[8],
     }
     param["extra_options"] = {
-        i + 1: int(x) for i, x in enumerate(data[5]) if x.isdigit()
+        i + 1: int(x) for i, x in enumerate(data[5] or "") if x.isdigit()
     }
 
     # Record 2
@@ -430,7 +430,9 @@ def _read_momop(f):
     line = next(f)
     data = read_record(line, fmt)
     momop = {
-        "more_options": {i + 1: int(x) for i, x in enumerate(data[0]) if x.isdigit()}
+        "more_options": {
+            i + 1: int(x) for i, x in enumerate(data[0] or "") if x.isdigit()
+        }
     }
 
     return momop
-- 
2.43.0


From 627dada49b23c472acd89e51d481042858fe255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 20/79] fix: rocks with NAD = 0 do not have additional records

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 51ed2cf..ce5fe81 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -159,7 +159,7 @@ def _read_rocks(f):
             }
 
             nad = data[1]
-            if nad is not None:
+            if nad:
                 # Record 2
                 line = next(f)
                 data = read_record(line, fmt[2])
-- 
2.43.0


From dd148bfb696dd32510062f2567c450f0ac8e71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 21/79] fix: merge glued files without final newline and split
 titles starting with ENDCY

---
 toughio/_cli/_merge.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index dceffa5..1275a27 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -24,9 +24,14 @@ def merge(argv=None):
     with open(args.infile, "r") as f:
         input_file = list(f)
 
+    # Skip title which can start with the name of a block
+    skip = 0
+    while skip < len(input_file) and input_file[skip].upper()[:5] != "ROCKS":
+        skip += 1
+
     # Check that input file has at least blocks ROCKS, PARAM, ENDFI or ENDCY
     count = 0
-    for line in input_file:
+    for line in input_file[skip:]:
         count += int(line.upper()[:5] in {"ROCKS", "PARAM", "ENDFI", "ENDCY"})
     if count < 3:
         raise ValueError("Invalid input file '{}'.".format(args.infile))
@@ -46,7 +51,7 @@ def merge(argv=None):
 
     # Locate ENDFI or ENDCY
     for i, line in enumerate(input_file):
-        if line.upper()[:5] in {"ENDFI", "ENDCY"}:
+        if i >= skip and line.upper()[:5] in {"ENDFI", "ENDCY"}:
             break
 
     # Buffer output file
@@ -59,7 +64,8 @@ def merge(argv=None):
     # Write output file
     with open(args.outfile, "w") as f:
         for line in output_file:
-            f.write(line)
+            # Last line of a file may not end with a newline
+            f.write(line if line.endswith("\n") else "{}\n".format(line))
 
 
 def _get_parser():
-- 
2.43.0


From 3aee2aee95fa950dff30ae8e9998130966375cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 22/79] fix: TOUGH output could not be read with a given label
 length

---
 toughio/_io/output/tough/_tough.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..1e58a56 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -77,12 +77,12 @@ def _read_table(f, file_type, label_length):
 
                     if first and not label_length:
                         label_length = get_label_length(line[:9])
-                        iend = (
-                            label_length
-                            if file_type == "element"
-                            else 2 * label_length + 2
-                        )
 
+                    iend = (
+                        label_length
+                        if file_type == "element"
+                        else 2 * label_length + 2
+                    )
                     tmp = (
                         [line[:label_length]]
                         if file_type == "element"
-- 
2.43.0


From 12eca5009c7956dad2397f9d954632f8065bc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 23/79] fix: negative numbers glued to the previous column of
 TOUGH output were read as NaN

---
 toughio/_io/output/tough/_tough.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 1e58a56..5911107 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,5 +1,6 @@
 from __future__ import with_statement
 
+import re
 from functools import partial
 
 import numpy
@@ -89,7 +90,8 @@ def _read_table(f, file_type, label_length):
                         else [line[:label_length], line[label_length + 2 : iend]]
                     )
 
-                    line = line[iend:]
+                    # Negative numbers can be glued to the previous column
+                    line = re.sub(r"-(?=[0-9]*\.)", " -", line[iend:])
                     if first:
                         try:
                             # Set line parser and try parsing first line
-- 
2.43.0


From f61fe1f4a4edbf8d9985cfd12d0825491a34da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 24/79] fix: output given to read_output of a mesh was
 reordered in place

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..4c5fb06 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=data.labels[idx],
+        data={k: v[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From 556fecda9f9d844066ce43d53b9cb3da92aa0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 25/79] fix: labels_order given as an array for SAVE files

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From 13e47d0ecdc5477845af359e1f0e0149e3c01677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 26/79] fix: SAVE files without porosity or with USERX of some
 elements only

---
 toughio/_io/output/save/_save.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index 27c7e95..53ab7fc 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -19,17 +19,20 @@ def read(filename, file_type, file_format, labels_order):
 
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
+    # Values that are not defined for an element are set to NaN
     data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
+        [
+            v["porosity"] if "porosity" in v.keys() else numpy.nan
+            for v in parameters["initial_conditions"].values()
+        ]
     )
 
-    userx = [
-        v["userx"]
-        for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
-    ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    userx = [v.get("userx", []) for v in parameters["initial_conditions"].values()]
+    num_userx = max(len(x) for x in userx)
+    if num_userx:
+        data["userx"] = numpy.array(
+            [x + [None] * (num_userx - len(x)) for x in userx], dtype=float
+        )
 
     labels_order = (
         labels_order
-- 
2.43.0


From c9be52120d9818cfc7b0cb21cbd5613733d08d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 27/79] fix: Tecplot output without VARIABLES was read forever

---
 toughio/_io/output/tecplot/_tecplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..e9c1cfa 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -16,7 +16,10 @@ def read(filename, file_type, file_format, labels_order):
     with open(filename, "r") as f:
         # Look for header (VARIABLES)
         while True:
-            line = f.readline().strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("Variables not found.")
+            line = line.strip()
             if line.upper().startswith("VARIABLES"):
                 break
 
-- 
2.43.0


From 4e4c5d25b7f7e43c9bfe744b641fe8abadd9b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 28/79] fix: CSV output without time could not be written

---
 toughio/_io/output/csv/_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 4353c1a..460c14e 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -125,7 +125,8 @@ def _write_csv(f, output, headers):
     ]
     for out in output:
         # Time step
-        f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
+        if out.time is not None:
+            f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
 
         # Table
         for i, label in enumerate(out.labels):
-- 
2.43.0


From 518946df650c9afc25f3dfcdfc91fa59bb84ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 29/79] fix: option --split of extract ignored the file format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 828b0d77ccf37866f26259a107a47438f1103086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:34 +0000
Subject: [PATCH 30/79] fix: save2incon truncated the output file before
 checking the SAVE file

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..982932f 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Buffer SAVE file
+    with open(args.infile, "r") as f:
+        save_file = list(f)
+    if not (save_file and save_file[0].startswith("INCON")):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in save_file:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From 03db3ad24a413f6ad8d82874cb41a5d8aa18f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 31/79] fix: data exported with option --voxelize were not
 ordered like the cells

---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..488316d 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Cells are numbered from top to bottom
+            x, y, z = points.T
+            idx = numpy.lexsort((x, y, -z) if args.layer else (-z, y, x))
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From ec25a1d7db0c9282cd263092e2980b96bfe85bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 32/79] fix: negative numbers with a three-digit exponent were
 glued in Tecplot output

---
 toughio/_io/output/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index e9c1cfa..8957114 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -89,5 +89,5 @@ def write(filename, output):
             # Table
             data = numpy.transpose([out.data[k] for k in headers])
             for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
+                record = "".join(" {:19.12e}".format(x) for x in d)
                 f.write("{}{}\n".format("{:18}".format(""), record))
-- 
2.43.0


From d9479134d3349c137ef3f10932c5b5396ef404d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:15 +0000
Subject: [PATCH 33/79] fix: last entry of a Tecplot zone was ignored when
 written without blank

---
 toughio/_mesh/tecplot/_tecplot.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..64a6f25 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -218,23 +218,9 @@ def _read_zone(line):
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-    line = [x for x in line.replace(",", " ").split() if x != "="]
-    i = 0
-    while i < len(line) - 1:
-        if "=" in line[i]:
-            if not (line[i].startswith("=") or line[i].endswith("=")):
-                key, value = line[i].split("=")
-            else:
-                key = line[i].replace("=", "")
-                value = line[i + 1]
-                i += 1
-        else:
-            key = line[i]
-            value = line[i + 1].replace("=", "")
-            i += 1
-
+    line = line.replace(",", " ").replace("=", " ").split()
+    for key, value in zip(line[::2], line[1::2]):
         zone[key] = zone_key_to_type[key](value)
-        i += 1
 
     # Add zone title to zone dict
     if zone_title:
-- 
2.43.0


From 7db83ee0c71c8457bea3781e66e28e9787f94df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 34/79] fix: new material could share the identifier of an
 unused one

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..66a624d 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -579,7 +579,7 @@ class Mesh(object):
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From b165bf7e783a41f911bd1bf9cc2cf1af7910864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 35/79] fix: components of vector data were mixed by the
 interpolation

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From 281f1589f5c76a90c49137f0e59da4734a71ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 36/79] fix: negative initial conditions were not written in
 INCON

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From 54a3b5f66bf8b0503f5c898c5a367128cb5fa00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 37/79] fix: set_material with cells given as a tuple, as
 booleans or empty

---
 toughio/_mesh/_mesh.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 66a624d..c4c3e3b 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -561,16 +561,19 @@ class Mesh(object):
 
         """
         ints = (int, numpy.int8, numpy.int16, numpy.int32, numpy.int64)
-        cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
+        cond_int = all(isinstance(c, ints) for c in cells)
+        cells = list(cells)
 
-        if cond_int:
-            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
-                raise ValueError()
+        if not cells:
+            pass
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
             cells = numpy.arange(self.n_cells)[cells]
+        elif cond_int:
+            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
+                raise ValueError()
         else:
             raise TypeError()
 
-- 
2.43.0


From f6ec9ca107a74d1c5815bba1da10e58d575ff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 38/79] fix: data of cells that cannot be extruded were kept by
 extrude_to_3d

---
 toughio/_mesh/_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c4c3e3b..396fa32 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -144,9 +144,11 @@ class Mesh(object):
             "quad": "hexahedron",
         }
         cells = []
+        blocks = []
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
         for ic, c in enumerate(mesh.cells):
             if c.type in extruded_types.keys():
+                blocks.append(ic)
                 extruded_type = extruded_types[c.type]
                 nr, nc = c.data.shape
                 cell = CellBlock(extruded_type, numpy.tile(c.data, (nh, 2)))
@@ -164,7 +166,9 @@ class Mesh(object):
                     )
 
         mesh.cells = cells
-        mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
+        mesh.cell_data = {
+            k: numpy.concatenate([v[ic] for ic in blocks]) for k, v in cell_data.items()
+        }
 
         if mesh.field_data:
             for k in mesh.field_data.keys():
-- 
2.43.0


From d27a2aa81f89852cc867c4bc36cd5006f6d8a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 39/79] fix: meshio mesh was modified by its conversion

---
 toughio/_mesh/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 396fa32..264f5fa 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -871,7 +871,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -888,7 +888,7 @@ def from_meshio(mesh, material="dfalt"):
         cells=cells,
         point_data=mesh.point_data,
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data) if mesh.field_data else None,
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
-- 
2.43.0


From 6636bacad5626c8fbf0c5106219a907ad798e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 40/79] fix: box filter ignored lengths equal to zero

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From 3eddfbd9d7ac5cb778be879925b0bb5582790423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 41/79] fix: meshes whose physical groups are all surfaces
 could not be converted

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 264f5fa..c34dbb4 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -901,7 +901,7 @@ def from_meshio(mesh, material="dfalt"):
 
     if "material" not in out.cell_data.keys():
         imat = (
-            numpy.max([v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
+            numpy.max([v[0] for v in mesh.field_data.values()]) + 1
             if mesh.field_data
             else 1
         )
-- 
2.43.0


From 2a48dff1be74bbcae64f69e1d1c5bf5845a9b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 42/79] fix: meshes without connection could not be written

---
 toughio/_mesh/tough/_tough.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..aedebe3 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -339,6 +339,9 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From 380d3fb07c08516bc15d8a67d125cca5c1ed69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:05 +0000
Subject: [PATCH 43/79] fix: options material_name and material_end ignored
 materials shorter than 5 characters

---
 toughio/_mesh/tough/_tough.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index aedebe3..c757539 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -177,7 +177,7 @@ def write_mesh(
     """Write MESH file."""
     # Check materials
     materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
+        material.strip() if isinstance(material, str) else material
         for material in materials
     ]
     material_name = material_name if material_name else {}
-- 
2.43.0


From 6741de7142244689d7bc3887023be6d02d5884e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:54 +0000
Subject: [PATCH 44/79] fix: direction of anisotropy was lost to round-off
 errors of cell centers

---
 toughio/_mesh/tough/_tough.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index c757539..862aa58 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -438,7 +438,8 @@ def _isot(lines):
     It always returns 1 if the connection line is not colinear with X, Y or Z.
 
     """
-    mask = lines != 0.0
+    # Cell centers are only known up to round-off errors
+    mask = numpy.abs(lines) > 1.0e-9 * numpy.linalg.norm(lines, axis=1)[:, None]
     return numpy.where(mask.sum(axis=1) == 1, mask.argmax(axis=1) + 1, 1)
 
 
-- 
2.43.0


From 1eab86ad28ee43e0885b244be0876ece45ac8b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 45/79] fix: points given twice to voxelize could pass for a
 structured grid

---
 toughio/meshmaker/_voxelize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/meshmaker/_voxelize.py b/toughio/meshmaker/_voxelize.py
index 60677f0..5ea0717 100644
--- a/toughio/meshmaker/_voxelize.py
+++ b/toughio/meshmaker/_voxelize.py
@@ -59,7 +59,8 @@ def voxelize(points, origin, layer=False, material="dfalt"):
     x = numpy.unique(x)
     y = numpy.unique(y)
     z = numpy.unique(z)
-    if x.size * y.size * z.size != len(points):
+    n_points = len(numpy.unique(points, axis=0))
+    if not x.size * y.size * z.size == n_points == len(points):
         raise ValueError("Input points do not form a structured grid.")
 
     x0, y0, z0 = origin
-- 
2.43.0


From a9fca7b378e933ff235a3c9180faaa771c4c12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 46/79] fix: identifier of the relative permeability of Fatt
 and Klikoff is 6

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From 788abe0c8cbd62fb8e65e85e29afa3eb0222ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 47/79] fix: capillarity of van Genuchten above the maximum
 liquid saturation was not a number

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..f289548 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -41,7 +41,7 @@ class vanGenuchten(BaseCapillarity):
             pcap = 0.0
         else:
             if sl > slr:
-                Seff = (sl - slr) / (sls - slr)
+                Seff = min((sl - slr) / (sls - slr), 1.0)
                 pcap = -1.0 / abs(alpha) * (Seff ** (-1.0 / m) - 1.0) ** (1.0 - m)
             else:
                 pcap = -abs(pmax)
-- 
2.43.0


From 22c196058e97a9c5575cd253dc7d873a20621c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 48/79] fix: labels of too many cells for the given length were
 not unique

---
 toughio/_mesh/_common.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index ab39272..c3dfab4 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -208,6 +208,13 @@ def labeler(n_cells, label_length=None):
             logging.warning("Cell labels are {}-character long.".format(label_length))
 
     n = label_length - 3
+    if n_cells > 31850 * 10 ** n:
+        raise ValueError(
+            "{} cells cannot be uniquely labeled with {} characters.".format(
+                n_cells, label_length
+            )
+        )
+
     fmt = "{{:0>{}}}".format(n)
     alpha = numpy.array(list(ascii_uppercase))
     numer = numpy.array([fmt.format(i) for i in range(10 ** n)])
-- 
2.43.0


From 223ccd27b441419bbcc7c3e00840074f13c01f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:45 +0000
Subject: [PATCH 49/79] fix: editing a mesh also changed the meshes it was
 converted from or to

---
 toughio/_mesh/_mesh.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c34dbb4..592bc47 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -171,7 +171,8 @@ class Mesh(object):
         }
 
         if mesh.field_data:
-            for k in mesh.field_data.keys():
+            for k, v in mesh.field_data.items():
+                mesh.field_data[k] = numpy.array(v)
                 mesh.field_data[k][1] = 3
 
         if not inplace:
@@ -258,8 +259,11 @@ class Mesh(object):
             Output mesh.
 
         """
-        keys = ["points", "point_data", "field_data"]
-        kwargs = {key: getattr(self, key) for key in keys}
+        kwargs = {
+            "points": self.points,
+            "point_data": dict(self.point_data),
+            "field_data": dict(self.field_data),
+        }
 
         version = get_meshio_version()
         cell_data = {k: self.split(v) for k, v in self.cell_data.items()}
@@ -582,7 +586,7 @@ class Mesh(object):
             raise TypeError()
 
         if len(cells):
-            data = self.cell_data["material"]
+            data = numpy.array(self.cell_data["material"])
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
@@ -886,7 +890,7 @@ def from_meshio(mesh, material="dfalt"):
     out = Mesh(
         points=mesh.points,
         cells=cells,
-        point_data=mesh.point_data,
+        point_data=dict(mesh.point_data) if mesh.point_data else None,
         cell_data=cell_data,
         field_data=dict(mesh.field_data) if mesh.field_data else None,
         point_sets=(
-- 
2.43.0


From 0490d380b5e24ce840cc0d728517cf31b62b37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:42 +0000
Subject: [PATCH 50/79] fix: cells repeated in another block were not pruned

---
 toughio/_mesh/_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 592bc47..a2d705e 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -216,13 +216,16 @@ class Mesh(object):
 
         # Prune duplicate cells
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        known = set()
         for ic, (k, v) in enumerate(cells):
             vsort = numpy.sort(v, axis=1)
             _, order = numpy.unique(vsort, axis=0, return_index=True)
+            order = [i for i in order if (k, *vsort[i]) not in known]
+            known.update((k, *vsort[i]) for i in order)
             cells[ic][1] = v[order]
             for kk, vv in cell_data.items():
                 cell_data[kk][ic] = vv[ic][order]
-        mesh.cells = cells
+        mesh.cells = [c for c in cells if len(c[1])]
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if not inplace:
-- 
2.43.0


From ca45bd49a5825558eda7e9598bc4b1f08ddb757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 51/79] fix: number of nodes of the cells of a pyvista mesh was
 read at the wrong place

---
 toughio/_mesh/_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index a2d705e..46587c5 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -967,11 +967,12 @@ def from_pyvista(mesh, material="dfalt"):
     cells = []
     c = 0
     for offset, cell_type in zip(vtk_offset, vtk_cell_type):
-        numnodes = vtk_cells[offset]
         if VTK9:
+            numnodes = vtk_cells[offset + c]
             cell = vtk_cells[offset + 1 + c : offset + 1 + c + numnodes]
             c += 1
         else:
+            numnodes = vtk_cells[offset]
             cell = vtk_cells[offset + 1 : offset + 1 + numnodes]
         cell = (
             cell
-- 
2.43.0


From 21843ed0ca8d767d6813aec7ddf5fa6ee39ab29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 52/79] fix: Tecplot mesh whose first coordinate is negative
 could not be read

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 64a6f25..5799f42 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and not (line[0].isdigit() or line[0] in "+-."):
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
-- 
2.43.0


From 62a872a135b4279adffac6e6d351ae370e4a3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 53/79] fix: Tecplot zone type of a mesh with 2D cells before
 its 3D cells

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 5799f42..7e5994f 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -344,7 +344,7 @@ def write(filename, mesh):
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEBRICK" if 3 in num_dims else "FEQUADRILATERAL"
         cells = numpy.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From 2c69733961f707f35a70b74ae9dfd38e66ef73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 54/79] fix: reading a truncated Tecplot mesh did not end

---
 toughio/_mesh/tecplot/_tecplot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 7e5994f..780ecf0 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -290,14 +290,20 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.strip().split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.strip().split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From 4d068f287180676347dab895c384685b0960d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 55/79] fix: names of variables of a Tecplot mesh with several
 blanks or a separator

---
 toughio/_mesh/tecplot/_tecplot.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 780ecf0..29890c8 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -1,4 +1,5 @@
 import logging
+import re
 
 import numpy
 
@@ -168,20 +169,11 @@ def read_buffer(f):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
-    variables = []
-
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = "{}_{}".format(line[i], line[i + 1])
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    line = line.split("=", 1)[1]
+    variables = [
+        "_".join((quoted or var).split())
+        for quoted, var in re.findall(r'"([^"]*)"|([^\s,"]+)', line)
+    ]
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From d3864f0e09a25347824b37b7ede900aa5c7558a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 56/79] fix: FLAC3D grid with several groups of faces could not
 be read

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..fbd0e1b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From a6b48522ea546e881c3116975b9d3ef3a3fc5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 57/79] fix: names of FLAC3D groups were cut at the first blank

---
 toughio/_mesh/flac3d/_flac3d.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fbd0e1b..850238a 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -161,7 +161,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
+        header = f.readline()
+        line = header.split()
         while line:
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
@@ -176,7 +177,7 @@ def read_buffer(f, binary):
                 cidx += 1
             elif line[0] in {"ZGROUP", "FGROUP"}:
                 flag = flags[line[0]]
-                name, slot, data = _read_group(f, binary, line)
+                name, slot, data = _read_group(f, binary, header)
                 field_data, mapper[flag] = _update_field_data(
                     field_data,
                     mapper[flag],
@@ -188,7 +189,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
+            header = f.readline()
+            line = header.split()
 
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
@@ -241,7 +243,7 @@ def _read_cell(buf_or_line, point_ids, binary):
     return cid, cell
 
 
-def _read_group(buf_or_line, binary, line=None):
+def _read_group(buf_or_line, binary, header=None):
     """Read cell group."""
     if binary:
         # Group name
@@ -258,7 +260,8 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
-        name = line[1].replace('"', "")
+        line = header.split()
+        name = header.split('"')[1] if '"' in header else line[1]
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-- 
2.43.0


From 75a400b512df0d4073e3a2abc0099e057a4b972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 58/79] fix: length of names of binary FLAC3D groups was
 counted in characters

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 850238a..ae16d44 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -411,11 +411,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                name = labels[k].encode("utf-8")
+                num_chars, num_zones = len(name), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    name,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From f6855da940dd0b5d5cc3e8332b6000c8384affd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 59/79] fix: groups of a FLAC3D grid with faces before zones
 named other cells

---
 toughio/_mesh/flac3d/_flac3d.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index ae16d44..00e1426 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -491,13 +491,25 @@ def _translate_faces(cells):
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
     num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
+        [
+            numpy.full(
+                len(c[1]),
+                2
+                if c[0] in meshio_only["face"]
+                else 3
+                if c[0] in meshio_only["zone"]
+                else 0,
+            )
+            for c in cells
+        ]
     )
+
+    # Zones are numbered first, then faces (see _write_cells)
+    ids = numpy.cumsum(num_dims == flag_to_numdim[flag])
+    if flag == "face":
+        ids += numpy.count_nonzero(num_dims == flag_to_numdim["zone"])
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
+        k: ids[numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])]
         for k in numpy.unique(cell_data)
     }
     groups = {k: v for k, v in groups.items() if v.size}
-- 
2.43.0


From 2c38bab24d2bd92728d9e2582c769d9cb3412399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 60/79] fix: numbers with a Fortran D exponent or a short
 exponent without letter could not be read

---
 toughio/_io/input/tough/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index 88d06a0..217def6 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -294,11 +294,14 @@ def write_record(data, fmt, multi=False):
 
 def str2float(s):
     """Convert variable string to float."""
+    s = s.strip().lower().replace("d", "e")
+
     try:
         return float(s)
     except ValueError:
         # It's probably something like "0.0001-001"
-        significand, exponent = s[:-4], s[-4:]
+        i = max(s.rfind("+"), s.rfind("-"))
+        significand, exponent = s[:i], s[i:]
         return float("{}e{}".format(significand, exponent))
 
 
-- 
2.43.0


From cdab1df8af7ba8a089f64fa280816a2d3f2ef428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 61/79] fix: Fortran exponents of history files could not be
 read

---
 toughio/_io/output/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/_helpers.py b/toughio/_io/output/_helpers.py
index cb6c0dd..0f36009 100644
--- a/toughio/_io/output/_helpers.py
+++ b/toughio/_io/output/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ..._common import filetype_from_filename, register_format
+from ..input.tough._helpers import str2float
 from ._common import Output
 
 __all__ = [
@@ -177,7 +178,7 @@ def read_history(filename):
         data = []
         line = f.readline().strip()
         while line:
-            data += [[float(x) for x in line.split(sep)]]
+            data += [[str2float(x) for x in line.split(sep)]]
             line = f.readline().strip()
         data = numpy.transpose(data)
 
-- 
2.43.0


From b7e8e76f3997ec62857737d5b0a52c6c6aadd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 62/79] fix: Fortran exponents of CSV, Petrasim and Tecplot
 output files could not be read

---
 toughio/_io/output/csv/_csv.py           | 5 +++--
 toughio/_io/output/petrasim/_petrasim.py | 5 +++--
 toughio/_io/output/tecplot/_tecplot.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 460c14e..7062d55 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -82,13 +83,13 @@ def _read_csv(f, file_type):
         # Time step
         if line[0].startswith("TIME"):
             line = line[0].split()
-            times.append(float(line[-1]))
+            times.append(str2float(line[-1]))
             variables.append([])
 
         # Output
         else:
             tmp = [l.strip() for l in line[:ilab]]
-            tmp += [float(l.strip()) for l in line[ilab:]]
+            tmp += [str2float(l) for l in line[ilab:]]
             variables[-1].append(tmp)
 
         line = f.readline().strip().replace('"', "")
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 1f22584..d0867e0 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -24,9 +25,9 @@ def read(filename, file_type, file_format, labels_order):
 
             if line:
                 line = line.split(",")
-                times.append(float(line[0]))
+                times.append(str2float(line[0]))
                 elements.append(line[1].strip())
-                data.append([float(x) for x in line[3:]])
+                data.append([str2float(x) for x in line[3:]])
             else:
                 break
 
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index 8957114..46f06c1 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ...._mesh.tecplot._tecplot import _read_variables, _read_zone
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -33,7 +34,7 @@ def read(filename, file_type, file_format, labels_order):
             # Read zone
             if line.startswith("ZONE"):
                 zone = _read_zone(line)
-                zone["T"] = float(zone["T"].split()[0]) if "T" in zone.keys() else None
+                zone["T"] = str2float(zone["T"].split()[0]) if "T" in zone.keys() else None
                 if "I" not in zone.keys():
                     raise ValueError()
 
@@ -41,7 +42,7 @@ def read(filename, file_type, file_format, labels_order):
             data = []
             for _ in range(zone["I"]):
                 line = f.readline().strip()
-                data.append([float(x) for x in line.split()])
+                data.append([str2float(x) for x in line.split()])
             data = numpy.array(data)
 
             # Output
-- 
2.43.0


From 40adff301a9912304edd604f899e527a3fd884af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 63/79] fix: registered input formats could not be asked for by
 name

---
 toughio/_io/input/_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/_helpers.py b/toughio/_io/input/_helpers.py
index 2c7b221..50c1afc 100644
--- a/toughio/_io/input/_helpers.py
+++ b/toughio/_io/input/_helpers.py
@@ -67,7 +67,7 @@ def read(filename, file_format=None, **kwargs):
     """
     if not isinstance(filename, str):
         raise TypeError()
-    if not (file_format is None or file_format in {"tough", "json"}):
+    if not (file_format is None or file_format in _reader_map.keys()):
         raise ValueError()
 
     fmt = (
@@ -107,7 +107,7 @@ def write(filename, parameters, file_format=None, **kwargs):
         raise TypeError()
     if not isinstance(parameters, dict):
         raise TypeError()
-    if not (file_format is None or file_format in {"tough", "json"}):
+    if not (file_format is None or file_format in _writer_map.keys()):
         raise ValueError()
 
     fmt = (
-- 
2.43.0


From 09c0f01e7566a5e26914e9abae6335a97724f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 64/79] fix: generic initial conditions of a rock named like a
 number were read as values of the previous rock

---
 toughio/_io/input/tough/_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index ce5fe81..36f38c6 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -95,7 +95,7 @@ def read_buffer(f, label_length):
         elif line.startswith("SELEC"):
             parameters.update(_read_selec(fiter))
         elif line.startswith("INDOM"):
-            indom = _read_indom(fiter, f)
+            indom = _read_indom(fiter, f, parameters.get("rocks", {}))
             for k, v in indom["rocks"].items():
                 parameters["rocks"][k].update(v)
         elif line.startswith("MOMOP"):
@@ -383,7 +383,7 @@ def _read_selec(f):
     return selec
 
 
-def _read_indom(f, fh):
+def _read_indom(f, fh, rocks):
     """Read INDOM block data."""
     fmt = block_to_format["INDOM"]
     indom = {"rocks": {}}
@@ -404,7 +404,7 @@ def _read_indom(f, fh):
                 i = fh.tell()
                 line = next(f)
 
-                if line.strip():
+                if line.strip() and line.strip() not in rocks:
                     try:
                         data += read_record(line, fmt[0])
                     except ValueError:
-- 
2.43.0


From 3ce13d2f8d9ef4463765454d4c4e9ae57eb76527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 65/79] fix: voxelize refuses points whose cell boundaries
 would be folded

---
 toughio/meshmaker/_voxelize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/meshmaker/_voxelize.py b/toughio/meshmaker/_voxelize.py
index 5ea0717..9358d48 100644
--- a/toughio/meshmaker/_voxelize.py
+++ b/toughio/meshmaker/_voxelize.py
@@ -45,6 +45,9 @@ def voxelize(points, origin, layer=False, material="dfalt"):
             vor = [x0]
             for xx in x:
                 vor.append(2 * xx - vor[-1])
+
+            if not (numpy.diff(vor) > 0.0).all():
+                raise ValueError("Input points do not form a structured grid.")
         else:
             vor = [x0, x0 + 1.0]
 
-- 
2.43.0


From 1353ee2fb9a119dd947d2014bd196e65c312c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 66/79] fix: blocks that precede ROCKS were read as title and
 refused by merge

---
 toughio/_cli/_merge.py           |  5 ++++-
 toughio/_io/input/tough/_read.py | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index 1275a27..66b1672 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -5,6 +5,7 @@ __all__ = [
 
 def merge(argv=None):
     import os
+    import re
 
     parser = _get_parser()
     args = parser.parse_args(argv)
@@ -26,7 +27,9 @@ def merge(argv=None):
 
     # Skip title which can start with the name of a block
     skip = 0
-    while skip < len(input_file) and input_file[skip].upper()[:5] != "ROCKS":
+    while skip < len(input_file):
+        if re.match("ROCKS|PARAM *(-.*)?$", input_file[skip].rstrip().upper()):
+            break
         skip += 1
 
     # Check that input file has at least blocks ROCKS, PARAM, ENDFI or ENDCY
diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 36f38c6..a013d2d 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -1,5 +1,7 @@
 from __future__ import division, with_statement
 
+import re
+
 from ...._common import block_to_format, get_label_length
 from ._helpers import prune_nones_dict, prune_nones_list, read_record
 
@@ -8,6 +10,13 @@ __all__ = [
 ]
 
 
+# Header of a block other than ROCKS that precedes it, not to be mistaken for a title
+header = re.compile(
+    "(RPCAP|MULTI|SOLVR|START|PARAM|SELEC|MOMOP|TIMES|FOFT|COFT|GOFT|GENER|DIFFU|OUTPU"
+    "|ELEME|CONNE|INCON|NOVER) *(-.*)?$"
+)
+
+
 def read(filename, label_length=None):
     """
     Read TOUGH input file.
@@ -43,20 +52,23 @@ def read_buffer(f, label_length):
     # Title
     line = f.readline().strip()
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
-        title = [line]
+        title, end = [line], None
         while True:
             i = f.tell()
             line = f.readline()
             if not line:
                 # No block ROCKS: do not look for a title
-                i = 0
+                end = 0
                 break
             elif line.strip().startswith("ROCKS"):
                 parameters["title"] = title[0] if len(title) == 1 else title
+                end = i if end is None else end
                 break
-            else:
+            elif end is None and header.match(line.rstrip()):
+                end = i
+            elif end is None:
                 title.append(line.strip())
-        f.seek(i)
+        f.seek(end)
     else:
         f.seek(0)
 
-- 
2.43.0


From 324fbca7a3a377cc5427a9fc2b44efb5d5e3672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 67/79] fix: merge refuses empty files

---
 toughio/_cli/_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index 66b1672..90a02c0 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -42,14 +42,14 @@ def merge(argv=None):
     # Buffer MESH
     with open(mesh_filename, "r") as f:
         mesh_file = list(f)
-    if not mesh_file[0].startswith("ELEME"):
+    if not (mesh_file and mesh_file[0].startswith("ELEME")):
         raise ValueError("Invalid MESH file.")
 
     # Buffer INCON if exist
     if incon_exists:
         with open(incon_filename, "r") as f:
             incon_file = list(f)
-        if not incon_file[0].startswith("INCON"):
+        if not (incon_file and incon_file[0].startswith("INCON")):
             raise ValueError("Invalid INCON file.")
 
     # Locate ENDFI or ENDCY
-- 
2.43.0


From 69f8cbd9ba3d7dab27ff28ee66d3a44e8c63d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 68/79] fix: continue primary variables on as many records as
 needed

---
 toughio/_io/input/tough/_read.py  | 34 +++++++++++++++++++------------
 toughio/_io/input/tough/_write.py | 18 ++++++++--------
 toughio/_mesh/tough/_helpers.py   |  6 +++---
 3 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index a013d2d..79fbfc8 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -348,16 +348,20 @@ def _read_param(f, fh):
         }
     )
 
-    # Record 4 and record 5 (EOS7R)
+    # Record 4, record 5 (EOS7R) and following ones
     line = next(f)
     data = read_record(line, fmt[5])
 
-    i = fh.tell()
-    try:
-        line = next(f)
-        data += read_record(line, fmt[5])
-    except ValueError:
-        fh.seek(i)
+    while True:
+        i = fh.tell()
+        try:
+            line = next(f) if len(data) == 4 else next(f, "")
+            data += read_record(line, fmt[5])
+        except ValueError:
+            fh.seek(i)
+            break
+        if not line.strip():
+            break
 
     if any(x is not None for x in data):
         data = prune_nones_list(data)
@@ -411,8 +415,8 @@ def _read_indom(f, fh, rocks):
             line = next(f)
             data = read_record(line, fmt[0])
 
-            # Record 3 (EOS7R)
-            if two_lines:
+            # Record 3 (EOS7R) and following ones
+            while two_lines:
                 i = fh.tell()
                 line = next(f)
 
@@ -420,10 +424,12 @@ def _read_indom(f, fh, rocks):
                     try:
                         data += read_record(line, fmt[0])
                     except ValueError:
-                        two_lines = False
+                        two_lines = len(data) > 4
                         fh.seek(i)
+                        break
                 else:
                     fh.seek(i)
+                    break
 
             data = prune_nones_list(data)
             indom["rocks"][rock] = {"initial_condition": data}
@@ -745,8 +751,8 @@ def _read_incon(f, label_length, fh):
             line = next(f)
             data = read_record(line, fmt[0])
 
-            # Record 3 (EOS7R)
-            if two_lines:
+            # Record 3 (EOS7R) and following ones
+            while two_lines:
                 i = fh.tell()
                 line = next(f)
 
@@ -754,10 +760,12 @@ def _read_incon(f, label_length, fh):
                     try:
                         data += read_record(line, fmt[0])
                     except ValueError:
-                        two_lines = False
+                        two_lines = len(data) > 4
                         fh.seek(i)
+                        break
                 else:
                     fh.seek(i)
+                    break
 
             incon["initial_conditions"][label]["values"] = prune_nones_list(data)
             incon["initial_conditions_order"].append(label)
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 62390c6..8247a22 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -470,9 +470,9 @@ def _write_param(parameters):
     values = parameters["default"]["initial_condition"][:n]
     out += write_record(values, fmt5)
 
-    # Record 5 (EOS7R)
-    if len(parameters["default"]["initial_condition"]) > 4:
-        values = parameters["default"]["initial_condition"][n:]
+    # Record 5 (EOS7R) and following ones
+    for i in range(4, len(parameters["default"]["initial_condition"]), 4):
+        values = parameters["default"]["initial_condition"][i : i + 4]
         out += write_record(values, fmt5)
 
     return out
@@ -558,9 +558,9 @@ def _write_indom(parameters):
                 values = list(data[:n])
                 out += write_record(values, fmt2)
 
-                # Record 3
-                if len(data) > 4:
-                    values = list(data[4:])
+                # Record 3 and following ones
+                for i in range(4, len(data), 4):
+                    values = list(data[i : i + 4])
                     out += write_record(values, fmt2)
 
     return out
@@ -966,9 +966,9 @@ def _write_incon(parameters):
         n = min(4, len(data["values"]))
         out += write_record(data["values"][:n], fmt2)
 
-        # Record 3 (EOS7R)
-        if len(data["values"]) > 4:
-            out += write_record(data["values"][4:], fmt2)
+        # Record 3 (EOS7R) and following ones
+        for i in range(4, len(data["values"]), 4):
+            out += write_record(data["values"][i : i + 4], fmt2)
 
     return out
 
diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 9af9a41..a2240bb 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -129,11 +129,11 @@ def _write_incon(labels, values, porosity=None, userx=None):
             fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
             record += fmt2.format(*values)
 
-            # Record 3 (EOS7R)
-            if len(value) > 4:
+            # Record 3 (EOS7R) and following ones
+            for n in range(4, len(value), 4):
                 values = []
                 ignore_types = []
-                for i, v in enumerate(value[n:]):
+                for i, v in enumerate(value[n : n + 4]):
                     if v > -1.0e9:
                         values.append(v)
                     else:
-- 
2.43.0


From acd2243692fe7da8367a648b30dd329982f91591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:55 +0000
Subject: [PATCH 69/79] fix: extract gives elements their own coordinates at
 every time step

---
 toughio/_cli/_extract.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index 8acfc0f..df442a2 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -47,22 +47,21 @@ def extract(argv=None):
         raise ValueError("Invalid TOUGH output file '{}'.".format(args.infile))
 
     try:
-        if not args.connection:
-            points = numpy.vstack(
-                [parameters["elements"][label]["center"] for label in output[-1].labels]
-            )
-        else:
-            points = numpy.array(
-                [
-                    numpy.mean(
-                        [parameters["elements"][l]["center"] for l in label], axis=0
-                    )
-                    for label in output[-1].labels
-                ]
-            )
-        points = {k: v for k, v in zip(["X", "Y", "Z"], points.T)}
         for out in output:
-            out.data.update(points)
+            if not args.connection:
+                points = numpy.vstack(
+                    [parameters["elements"][label]["center"] for label in out.labels]
+                )
+            else:
+                points = numpy.array(
+                    [
+                        numpy.mean(
+                            [parameters["elements"][l]["center"] for l in label], axis=0
+                        )
+                        for label in out.labels
+                    ]
+                )
+            out.data.update({k: v for k, v in zip(["X", "Y", "Z"], points.T)})
 
     except KeyError:
         raise ValueError(
-- 
2.43.0


From cebae9d9087fafa383e16a871483105d095be8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:55 +0000
Subject: [PATCH 70/79] fix: export gives elements their own data when their
 order changes with time

---
 toughio/_cli/_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index 488316d..8039364 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -81,6 +81,10 @@ def export(argv=None):
     if not with_mesh:
         print("{} ...".format(msg), end="")
         sys.stdout.flush()
+        if args.file_format == "xdmf" and input_format != "tecplot":
+            # The order of the elements can change with time
+            if output[0].type == "element":
+                output = [reorder_labels(data, output[0].labels) for data in output]
         points, axis = _get_points(output if args.file_format != "xdmf" else output[0])
         ndim = len(axis)
         print(" Done!")
-- 
2.43.0


From 675d7adcb0c8b17342136f27bc33cb0da06e745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 71/79] fix: read entries with different numbers of primary
 variables

---
 toughio/_io/input/tough/_read.py | 52 ++++++++++----------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 79fbfc8..9efcd21 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -107,7 +107,7 @@ def read_buffer(f, label_length):
         elif line.startswith("SELEC"):
             parameters.update(_read_selec(fiter))
         elif line.startswith("INDOM"):
-            indom = _read_indom(fiter, f, parameters.get("rocks", {}))
+            indom = _read_indom(fiter, parameters.get("rocks", {}))
             for k, v in indom["rocks"].items():
                 parameters["rocks"][k].update(v)
         elif line.startswith("MOMOP"):
@@ -137,7 +137,7 @@ def read_buffer(f, label_length):
         elif line.startswith("CONNE"):
             parameters.update(_read_conne(fiter, label_length))
         elif line.startswith("INCON"):
-            parameters.update(_read_incon(fiter, label_length, f))
+            parameters.update(_read_incon(fiter, label_length))
         elif line.startswith("NOVER"):
             parameters["nover"] = True
         elif line.startswith("ENDCY"):
@@ -399,13 +399,12 @@ def _read_selec(f):
     return selec
 
 
-def _read_indom(f, fh, rocks):
+def _read_indom(f, rocks):
     """Read INDOM block data."""
     fmt = block_to_format["INDOM"]
     indom = {"rocks": {}}
 
     line = next(f)
-    two_lines = True
     while True:
         if line.strip():
             # Record 1
@@ -416,28 +415,19 @@ def _read_indom(f, fh, rocks):
             data = read_record(line, fmt[0])
 
             # Record 3 (EOS7R) and following ones
-            while two_lines:
-                i = fh.tell()
-                line = next(f)
-
-                if line.strip() and line.strip() not in rocks:
-                    try:
-                        data += read_record(line, fmt[0])
-                    except ValueError:
-                        two_lines = len(data) > 4
-                        fh.seek(i)
-                        break
-                else:
-                    fh.seek(i)
+            line = next(f)
+            while line.strip() and line.strip() not in rocks:
+                try:
+                    data += read_record(line, fmt[0])
+                except ValueError:
                     break
+                line = next(f)
 
             data = prune_nones_list(data)
             indom["rocks"][rock] = {"initial_condition": data}
         else:
             break
 
-        line = next(f)
-
     return indom
 
 
@@ -726,7 +716,7 @@ def _read_conne(f, label_length):
     return conne
 
 
-def _read_incon(f, label_length, fh):
+def _read_incon(f, label_length):
     """Read INCON block data."""
     fmt = block_to_format["INCON"]
     incon = {"initial_conditions": {}, "initial_conditions_order": []}
@@ -735,7 +725,6 @@ def _read_incon(f, label_length, fh):
     if not label_length:
         label_length = get_label_length(line[:9])
 
-    two_lines = True
     while True:
         if line.strip() and not line.startswith("+++"):
             # Record 1
@@ -752,28 +741,19 @@ def _read_incon(f, label_length, fh):
             data = read_record(line, fmt[0])
 
             # Record 3 (EOS7R) and following ones
-            while two_lines:
-                i = fh.tell()
-                line = next(f)
-
-                if line.strip() and not line.startswith("+++"):
-                    try:
-                        data += read_record(line, fmt[0])
-                    except ValueError:
-                        two_lines = len(data) > 4
-                        fh.seek(i)
-                        break
-                else:
-                    fh.seek(i)
+            line = next(f)
+            while line.strip() and not line.startswith("+++"):
+                try:
+                    data += read_record(line, fmt[0])
+                except ValueError:
                     break
+                line = next(f)
 
             incon["initial_conditions"][label]["values"] = prune_nones_list(data)
             incon["initial_conditions_order"].append(label)
         else:
             break
 
-        line = next(f)
-
     incon["initial_conditions"] = {
         k: prune_nones_dict(v) for k, v in incon["initial_conditions"].items()
     }
-- 
2.43.0


From 1efce95618a1d13cce0342a14ddd5aaa68a46fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:39 +0000
Subject: [PATCH 72/79] fix: extensions can be registered in any case

---
 toughio/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index bcbacac..4e9d724 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -103,7 +103,7 @@ def register_format(
 ):
     """Register a new format."""
     for ext in extensions:
-        ext_to_fmt[ext] = fmt
+        ext_to_fmt[ext.lower()] = fmt
 
     if reader is not None:
         reader_map[fmt] = reader
-- 
2.43.0


From e972254d6df5de048b817818418319b2b4675f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 73/79] fix: read FLAC3D files in which some zones are in no
 group

---
 toughio/_mesh/flac3d/_flac3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 00e1426..5e84b99 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -199,8 +199,10 @@ def read_buffer(f, binary):
             if not slots[k]:
                 continue
 
-            for cid, zid in v.values():
-                cell_data[cid] = zid
+            for vv in v.values():
+                if len(vv) > 1:
+                    cid, zid = vv
+                    cell_data[cid] = zid
         cell_data = {"flac3d:group": numpy.split(cell_data, num_cells[:-1])}
     else:
         cell_data = {}
-- 
2.43.0


From 1a831af1353ffd7b46c9ecad44151732bfc8f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 74/79] fix: extruding a mesh keeps tensor data with their
 cells and points

Data with more than two dimensions were tiled along the wrong axis.
---
 toughio/_mesh/_mesh.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 46587c5..1764860 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -133,11 +133,7 @@ class Mesh(object):
             extra_points[:, axis] += h
             mesh.points = numpy.vstack((mesh.points, extra_points))
         for k, v in mesh.point_data.items():
-            mesh.point_data[k] = (
-                numpy.tile(v, nh + 1)
-                if numpy.ndim(v) == 1
-                else numpy.tile(v, (nh + 1, 1))
-            )
+            mesh.point_data[k] = numpy.tile(v, (nh + 1, *[1] * (numpy.ndim(v) - 1)))
 
         extruded_types = {
             "triangle": "wedge",
@@ -159,11 +155,7 @@ class Mesh(object):
                 cells.append(cell)
 
                 for k, v in cell_data.items():
-                    v[ic] = (
-                        numpy.tile(v[ic], nh)
-                        if numpy.ndim(v[ic]) == 1
-                        else numpy.tile(v[ic], (nh, 1))
-                    )
+                    v[ic] = numpy.tile(v[ic], (nh, *[1] * (numpy.ndim(v[ic]) - 1)))
 
         mesh.cells = cells
         mesh.cell_data = {
-- 
2.43.0


From 4d8d7af0b74e8e2e80d990ad64cce2ec29e38f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 75/79] fix: materials of the same number are told apart by
 their dimension

---
 toughio/_mesh/_common.py     |  2 +-
 toughio/_mesh/_properties.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index c3dfab4..91215cd 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -81,7 +81,7 @@ vtk_type_to_numnodes = {
 
 meshio_type_to_ndim = {k: 3 for k in meshio_to_vtk_type.keys()}
 meshio_type_to_ndim.update(
-    {"empty": 0, "vertex": 1, "line": 2, "triangle": 2, "polygon": 2, "quad": 2}
+    {"empty": 0, "vertex": 0, "line": 1, "triangle": 2, "polygon": 2, "quad": 2}
 )
 
 
diff --git a/toughio/_mesh/_properties.py b/toughio/_mesh/_properties.py
index 329d3c3..fb5bf39 100644
--- a/toughio/_mesh/_properties.py
+++ b/toughio/_mesh/_properties.py
@@ -3,6 +3,8 @@ from itertools import chain
 
 import numpy
 
+from ._common import meshio_type_to_ndim
+
 
 def _materials(mesh):
     """Return materials of cell in mesh."""
@@ -11,7 +13,18 @@ def _materials(mesh):
             out = mesh.cell_data["material"]
             try:
                 field_data_dict = {v[0]: k for k, v in mesh.field_data.items()}
-                out = [field_data_dict[mat] for mat in out]
+                # Names can have the same number if their dimensions are different
+                names = {tuple(v[:2]): k for k, v in mesh.field_data.items()}
+                ndims = chain.from_iterable(
+                    len(c.data) * [meshio_type_to_ndim.get(c.type, 3)]
+                    for c in mesh.cells
+                )
+                out = [
+                    names[(mat, ndim)]
+                    if (mat, ndim) in names.keys()
+                    else field_data_dict[mat]
+                    for mat, ndim in zip(out, ndims)
+                ]
             except KeyError:
                 logging.warning(
                     (
-- 
2.43.0


From 371b793e9e786cb355926297cecd3d062ed3b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 76/79] fix: reading stops at ENDFI as at ENDCY

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 9efcd21..dfb688d 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -140,7 +140,7 @@ def read_buffer(f, label_length):
             parameters.update(_read_incon(fiter, label_length))
         elif line.startswith("NOVER"):
             parameters["nover"] = True
-        elif line.startswith("ENDCY"):
+        elif line.startswith("ENDCY") or line.startswith("ENDFI"):
             break
 
     # Parameter start is True by default
-- 
2.43.0


From 4386e62a26caee9375b10b4353bff726d68a3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:39 +0000
Subject: [PATCH 77/79] fix: materials told apart by their dimension stay so
 when a mesh is extruded

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 1764860..4f264b2 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -165,7 +165,7 @@ class Mesh(object):
         if mesh.field_data:
             for k, v in mesh.field_data.items():
                 mesh.field_data[k] = numpy.array(v)
-                mesh.field_data[k][1] = 3
+                mesh.field_data[k][1] = min(v[1] + 1, 3)
 
         if not inplace:
             return mesh
-- 
2.43.0


From 02fb0860277b67b6b6b3865fcc5eee23dd747ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:56 +0000
Subject: [PATCH 78/79] fix: setting a material leaves those of the same number
 and another dimension

---
 toughio/_mesh/_mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 4f264b2..5af52aa 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -582,11 +582,17 @@ class Mesh(object):
 
         if len(cells):
             data = numpy.array(self.cell_data["material"])
+            imats = [v[0] for v in self.field_data.values()]
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
+                else max([data.max()] + imats) + 1
             )
+            if imats.count(imat) > 1:
+                # Number is also the one of a material of another dimension
+                mask = numpy.array([mat == material for mat in self.materials])
+                imat = max([data.max()] + imats) + 1
+                data[mask] = imat
             data[cells] = imat
             self.add_cell_data("material", data)
             self.field_data[material] = numpy.array([imat, 3])
-- 
2.43.0


From b637d5a9af8ffbcad0dfb56688db8fd62af2abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:56 +0000
Subject: [PATCH 79/79] fix: meshes with integer coordinates can be extruded

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 5af52aa..314027f 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -128,7 +128,7 @@ class Mesh(object):
             if axis != 2:
                 mesh.points[:, [axis, 2]] = mesh.points[:, [2, axis]]
 
-        extra_points = numpy.array(mesh.points)
+        extra_points = numpy.array(mesh.points, dtype=float)
         for h in height:
             extra_points[:, axis] += h
             mesh.points = numpy.vstack((mesh.points, extra_points))
-- 
2.43.0

