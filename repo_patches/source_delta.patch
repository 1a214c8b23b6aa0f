From 2b005b7008f64736076c66b12bb6118d98c4b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:38 +0000
Subject: [PATCH 01/79] fix: keep numbers within their field in TOUGH input
 records

Negative numbers and numbers with a three-digit exponent written as 10.4e
(or 20.13e, ...) were one or two characters wider than their field and
shifted every following field of the record.
---
 toughio/_io/input/tough/_helpers.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..fbb136d 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -259,11 +259,19 @@ def write_record(data, fmt, multi=False):
 
     def to_str(x, fmt):
         x = "" if x is None else x
-        return (
-            fmt.format(x)
-            if not isinstance(x, str)
-            else fmt.replace("g", "").replace("e", "").format(x)
-        )
+        if isinstance(x, str):
+            return fmt.replace("g", "").replace("e", "").format(x)
+
+        out = fmt.format(x)
+        if fmt.endswith("e}"):
+            # Lower the precision of numbers that are too long for their field
+            # (e.g. negative numbers), following fields would be shifted otherwise
+            width, precision = [int(n) for n in fmt[3:-2].split(".")]
+            while len(out) > width and precision > 0:
+                precision -= 1
+                out = "{:>{}.{}e}".format(x, width, precision)
+
+        return out
 
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
-- 
2.43.0


From 6c1f43ba3c8278f3bc09a1ca04b7c95ae1e90a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 02/79] fix: accept tuples and arrays for rocks_order when
 writing TOUGH input

---
 toughio/_io/input/tough/_write.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..15d1ae9 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -162,7 +162,7 @@ def _write_rocks(parameters):
     """Write ROCKS block data."""
     # Reorder rocks
     if parameters["rocks_order"] is not None:
-        order = parameters["rocks_order"]
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -290,8 +290,8 @@ def _write_flac(parameters):
     data.update(parameters["flac"])
 
     # Reorder rocks
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -532,8 +532,8 @@ def _write_selec(parameters):
 @block("INDOM", multi=True)
 def _write_indom(parameters):
     """Write INDOM block data."""
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
-- 
2.43.0


From bf2ebe8c3321676a2b1698c0ec05b945427e76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 03/79] fix: do not write a blank record for trailing None
 primary variables

In blocks INDOM and INCON, a blank third record ends the block, so that all
the following materials or elements were lost.
---
 toughio/_io/input/tough/_write.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 15d1ae9..36ccf48 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -7,7 +7,13 @@ import numpy
 
 from ...._common import block_to_format, str2format
 from ._common import default
-from ._helpers import block, check_parameters, dtypes, write_record
+from ._helpers import (
+    block,
+    check_parameters,
+    dtypes,
+    prune_nones_list,
+    write_record,
+)
 
 __all__ = [
     "write",
@@ -548,8 +554,8 @@ def _write_indom(parameters):
     out = []
     for k in order:
         if "initial_condition" in parameters["rocks"][k]:
-            data = parameters["rocks"][k]["initial_condition"]
-            if any(x is not None for x in data):
+            data = prune_nones_list(parameters["rocks"][k]["initial_condition"])
+            if data:
                 # Record 1
                 values = [k]
                 out += write_record(values, fmt1)
@@ -960,12 +966,13 @@ def _write_incon(parameters):
         out += write_record(values, fmt1)
 
         # Record 2
-        n = min(4, len(data["values"]))
-        out += write_record(data["values"][:n], fmt2)
+        values = prune_nones_list(data["values"])
+        n = min(4, len(values))
+        out += write_record(values[:n], fmt2)
 
         # Record 3 (EOS7R)
-        if len(data["values"]) > 4:
-            out += write_record(data["values"][4:], fmt2)
+        if len(values) > 4:
+            out += write_record(values[4:], fmt2)
 
     return out
 
-- 
2.43.0


From 64b46d58270c004c8d2cb182565c5d6fe83be016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 04/79] fix: write OUTPU variables whose options have different
 lengths

---
 toughio/_io/input/tough/_write.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 36ccf48..0c39175 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -807,12 +807,12 @@ def _write_outpu(parameters):
         for k, v in data["variables"].items():
             values = [k.upper()]
 
-            if numpy.ndim(v) == 0:
+            if not isinstance(v, (list, tuple, numpy.ndarray)):
                 values += [v]
                 buffer += write_record(values, fmt3)
                 num_vars += 1
             else:
-                if numpy.ndim(v[0]) == 0:
+                if not isinstance(v[0], (list, tuple, numpy.ndarray)):
                     values += list(v)
                     buffer += write_record(values, fmt3)
                     num_vars += 1
-- 
2.43.0


From 839a8f85b1e4ac94433f956f1e6ffe06847ac2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 05/79] fix: do not skip the block that follows OUTPU without
 variables

When OUTPU only defines a format, the header of the following block was
consumed and the block ignored.
---
 toughio/_io/input/tough/_read.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..4e950b1 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -107,7 +107,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -550,20 +550,25 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
 
     # Format
+    i = fh.tell()
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+        i = fh.tell()
         line = next(f).strip()
 
     # Variables
     names = {}
-    if line.isdigit():
+    if not line.isdigit():
+        # Line belongs to the next block
+        fh.seek(i)
+    else:
         num_vars = int(line)
         outpu["output"]["variables"] = {}
 
-- 
2.43.0


From e9b29aaa1a84c5ded58707f3d320cabc3556ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 06/79] fix: keep specific enthalpies aligned when reading
 multiple generators

An element with several generators lost the specific enthalpy of the other
generators when one of them is a table without specific enthalpy.
---
 toughio/_io/input/tough/_read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 4e950b1..fd105b3 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -495,6 +495,9 @@ def _read_gener(f, label_length):
                         table += prune_nones_list(data)
 
                     tmp[key] = [table]
+
+                if not itab:
+                    tmp["specific_enthalpy"] = [None]
             else:
                 tmp.update(
                     {
-- 
2.43.0


From b7e5f188a24338fe0ad8db4a90dcddfb2668edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 07/79] fix: integers and floats of block SELEC are both
 optional

---
 toughio/_io/input/json/_json.py   | 2 +-
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..824c82d 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -39,7 +39,7 @@ def read(filename):
     if "more_options" in parameters.keys():
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "selections" in parameters.keys():
+    if parameters.get("selections") and parameters["selections"].get("integers"):
         parameters["selections"]["integers"] = to_int(
             parameters["selections"]["integers"]
         )
diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index fd105b3..eb3175d 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -363,7 +363,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 0c39175..e4d38ee 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -492,9 +492,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
+    if parameters["selections"].get("floats") is not None:
         data["floats"] = parameters["selections"]["floats"]
 
     # Check floats and overwrite IE(1)
-- 
2.43.0


From 902820635eb064e180d637386ee1ba700d55b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 08/79] fix: use default solver method when it is not set

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From 0bcfc30ee77bdf30378034579b1765eb17cc5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 09/79] fix: write elements and connections without optional
 parameters

Elements without center, elements with a numpy integer material and
connections without nodal distances could not be written.
---
 toughio/_io/input/tough/_write.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index e4d38ee..9108357 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -852,9 +852,10 @@ def _write_eleme(parameters):
 
         material = (
             "{:>5}".format(data["material"])
-            if isinstance(data["material"], int)
+            if not (data["material"] is None or isinstance(data["material"], str))
             else data["material"]
         )
+        center = data["center"] if data["center"] is not None else [None] * 3
         values = [
             k,
             data["nseq"],
@@ -863,9 +864,9 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
+            center[0],
+            center[1],
+            center[2],
         ]
         out += write_record(values, fmt)
 
@@ -915,14 +916,17 @@ def _write_conne(parameters):
         data = deepcopy(connections)
         data.update(parameters["connections"][k])
 
+        distances = data["nodal_distances"]
+        distances = distances if distances is not None else [None, None]
+
         values = [
             k,
             data["nseq"],
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            distances[0],
+            distances[1],
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 6738233a92d87c375e5ff2b477c9540cb2cf54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 10/79] fix: read elements without material

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index eb3175d..fabc3a3 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -616,11 +616,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3] if data[3] else ""
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
-- 
2.43.0


From 7e2ebb3808b768dd8a778f3ca45fa01093e07642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:33 +0000
Subject: [PATCH 11/79] fix: accept an array for diffusion coefficients when
 writing block MULTI

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 9108357..8249889 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -353,7 +353,7 @@ def _write_multi(parameters):
     values[2] = parameters["n_phase"] if parameters["n_phase"] else values[2]
 
     # Handle diffusion
-    if parameters["diffusion"]:
+    if parameters["diffusion"] is not None and len(parameters["diffusion"]):
         values[3] = 8
         parameters["n_phase"] = values[2]  # Save for later check
 
-- 
2.43.0


From 999beecf78207a2185fe40127990ae3a7ba83cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:33 +0000
Subject: [PATCH 12/79] fix: read the number of mass components of block MULTI

---
 toughio/_io/input/tough/_read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index fabc3a3..82c05f1 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -240,6 +240,9 @@ def _read_multi(f):
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
 
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
+
     return multi
 
 
-- 
2.43.0


From fbeec3a211d883a3c4b42d4cb663195948d9c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:33 +0000
Subject: [PATCH 13/79] fix: do not truncate long element names in blocks FOFT,
 COFT and GOFT

---
 toughio/_common.py                | 6 +++---
 toughio/_io/input/tough/_write.py | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..bcbacac 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
+    "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 8249889..25c28dc 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -616,8 +616,9 @@ def _write_times(parameters):
 def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
+    label_length = max([len(x) for x in parameters["element_history"]] + [5])
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
     values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
@@ -629,8 +630,9 @@ def _write_foft(parameters):
 def _write_coft(parameters):
     """Write COFT block data."""
     # Format
+    label_length = max([len(x) // 2 for x in parameters["connection_history"]] + [5])
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
     values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
@@ -642,8 +644,9 @@ def _write_coft(parameters):
 def _write_goft(parameters):
     """Write GOFT block data."""
     # Format
+    label_length = max([len(x) for x in parameters["generator_history"]] + [5])
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
     values = [x for x in parameters["generator_history"]]
     out = write_record(values, fmt, multi=True)
-- 
2.43.0


From b451ca36815ab79de9f1f769d68a959afac2c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:14 +0000
Subject: [PATCH 14/79] fix: read blank and fractional time steps of block
 PARAM

A blank DELTEN could not be read, and a time step such as 0.5 was truncated.
---
 toughio/_io/input/tough/_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 82c05f1..32b577f 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -300,12 +300,12 @@ def _read_param(f, fh):
         }
     )
 
-    t_steps = int(data[2])
-    if t_steps >= 0.0:
+    t_steps = data[2]
+    if t_steps is None or t_steps >= 0.0:
         param["options"]["t_steps"] = t_steps
     else:
         param["options"]["t_steps"] = []
-        for _ in range(-t_steps):
+        for _ in range(-int(t_steps)):
             line = next(f)
             data = read_record(line, fmt[3])
             param["options"]["t_steps"] += prune_nones_list(data)
-- 
2.43.0


From 62a5056c5bc14f630623aa9f30bd783848232146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:14 +0000
Subject: [PATCH 15/79] fix: read block PARAM when its first record is short

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 32b577f..8065405 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -282,7 +282,7 @@ def _read_param(f, fh):
         "effective_strength_vapor": data[8],
     }
     param["extra_options"] = {
-        i + 1: int(x) for i, x in enumerate(data[5]) if x.isdigit()
+        i + 1: int(x) for i, x in enumerate(data[5] or "") if x.isdigit()
     }
 
     # Record 2
-- 
2.43.0


From 02d7274e77dc168a1080b34b815a5dac3895704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:14 +0000
Subject: [PATCH 16/79] fix: do not read a second record for materials with NAD
 = 0

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 8065405..9929bc0 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -149,7 +149,7 @@ def _read_rocks(f):
             }
 
             nad = data[1]
-            if nad is not None:
+            if nad:
                 # Record 2
                 line = next(f)
                 data = read_record(line, fmt[2])
-- 
2.43.0


From ab89040f58a24d7ee50ee846689fcda85568fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:00 +0000
Subject: [PATCH 17/79] fix: end the title at the first block, whichever it is,
 or at end of file

Reading a file without block ROCKS never ended, and blocks preceding ROCKS
were read as part of the title.
---
 toughio/_io/input/tough/_read.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 9929bc0..a2eb1aa 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -41,15 +41,14 @@ def read_buffer(f, label_length):
     parameters = {}
 
     # Title
-    line = f.readline().strip()
-    if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
-        title = [line]
-        while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
-            else:
+    keywords = tuple(block_to_format.keys()) + ("START", "NOVER", "ENDCY")
+    line = f.readline()
+    if not line.startswith(keywords):
+        title = [line.strip()]
+        for line in iter(f.readline, ""):
+            if line.startswith(keywords):
                 break
+            title.append(line.strip())
 
         parameters["title"] = title[0] if len(title) == 1 else title
     f.seek(0)
-- 
2.43.0


From 52bc21005e0c68e3ffff79684d4c7c49c7c25252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:27 +0000
Subject: [PATCH 18/79] fix: serialize all numpy scalars when writing json

---
 toughio/_io/input/json/_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 824c82d..f3d1931 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -63,8 +63,8 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, numpy.generic):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-- 
2.43.0


From 3805d4552d5bd00187ea666e6fcb056a8d956007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:27 +0000
Subject: [PATCH 19/79] fix: do not truncate an existing file when json
 serialization fails

---
 toughio/_io/input/json/_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index f3d1931..5dfeb2d 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -74,7 +74,7 @@ def write(filename, parameters):
         else:
             return x
 
+    parameters = deepcopy(parameters)
+    parameters = json.dumps(jsonify(parameters), indent=4)
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(parameters)
-- 
2.43.0


From 284b9657bd54999ce89600e220c78a7eb1af731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 20/79] fix: read the last entry of a Tecplot zone record when
 it has no blank

---
 toughio/_mesh/tecplot/_tecplot.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..09ea308 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -218,23 +218,9 @@ def _read_zone(line):
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-    line = [x for x in line.replace(",", " ").split() if x != "="]
-    i = 0
-    while i < len(line) - 1:
-        if "=" in line[i]:
-            if not (line[i].startswith("=") or line[i].endswith("=")):
-                key, value = line[i].split("=")
-            else:
-                key = line[i].replace("=", "")
-                value = line[i + 1]
-                i += 1
-        else:
-            key = line[i]
-            value = line[i + 1].replace("=", "")
-            i += 1
-
+    line = line.replace("=", " ").replace(",", " ").split()
+    for key, value in zip(line[::2], line[1::2]):
         zone[key] = zone_key_to_type[key](value)
-        i += 1
 
     # Add zone title to zone dict
     if zone_title:
-- 
2.43.0


From c1e7011f0a0f7f700d5f61f9415e9066a5f9d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 21/79] fix: keep columns of Tecplot outputs separated

---
 toughio/_io/output/tecplot/_tecplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..ff62caf 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -72,7 +72,7 @@ def write(filename, output):
 
     with open(filename, "w") as f:
         # Headers
-        record = "".join("{:>18}".format(header) for header in headers)
+        record = "".join(" {:>17}".format(header) for header in headers)
         f.write("{}{}\n".format("{:>18}".format("VARIABLES       ="), record))
 
         # Data
@@ -86,5 +86,5 @@ def write(filename, output):
             # Table
             data = numpy.transpose([out.data[k] for k in headers])
             for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
+                record = "".join(" {:19.12e}".format(x) for x in d)
                 f.write("{}{}\n".format("{:18}".format(""), record))
-- 
2.43.0


From 3437b701ca0dfb8e636b3db0830371874428b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:17 +0000
Subject: [PATCH 22/79] fix: read TOUGH listing when label_length is given

---
 toughio/_io/output/tough/_tough.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..47d51ba 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -75,13 +75,15 @@ def _read_table(f, file_type, label_length):
                 if line[:10].strip() and not line.strip().startswith("ELEM"):
                     line = line.lstrip()
 
-                    if first and not label_length:
-                        label_length = get_label_length(line[:9])
+                    if first:
+                        if not label_length:
+                            label_length = get_label_length(line[:9])
                         iend = (
                             label_length
                             if file_type == "element"
                             else 2 * label_length + 2
                         )
+                        first = False
 
                     tmp = (
                         [line[:label_length]]
-- 
2.43.0


From d93063963caa360f070ecc123fca955a30fcfc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 23/79] fix: read listings where negative numbers leave no
 blank between columns

---
 toughio/_io/output/tough/_tough.py | 46 ++++++------------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 47d51ba..a38f84e 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,11 +1,11 @@
 from __future__ import with_statement
 
-from functools import partial
+import re
 
 import numpy
 
 from ...._common import get_label_length
-from ...input.tough._helpers import read_record, str2float
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -91,41 +91,8 @@ def _read_table(f, file_type, label_length):
                         else [line[:label_length], line[label_length + 2 : iend]]
                     )
 
-                    line = line[iend:]
-                    if first:
-                        try:
-                            # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
-                            _ = reader(line)
-
-                        except ValueError:
-                            # Determine number of characters for index
-                            idx = line.replace("-", " ").split()[0]
-                            nidx = line.index(idx) + len(idx)
-                            ifmt = "{}s".format(nidx)
-
-                            # Determine number of characters between two Es
-                            i1 = line.find("E")
-                            i2 = line.find("E", i1 + 1)
-
-                            # Initialize data format
-                            fmt = [ifmt]
-                            if i2 >= 0:
-                                di = i2 - i1
-                                dfmt = "{}.{}e".format(di, di - 7)
-                                fmt += 20 * [dfmt]  # Read 20 data columns at most
-                            else:
-                                fmt += ["12.5e"]
-                            fmt = ",".join(fmt)
-
-                            # Set line parser
-                            reader = partial(read_record, fmt=fmt)
-
-                        finally:
-                            first = False
-
-                    tmp += reader(line)
-                    variables[-1].append([x for x in tmp if x is not None])
+                    tmp += [_str2float(x) for x in _split(line[iend:])]
+                    variables[-1].append(tmp)
 
                 line = next(f)
                 if line[1:].startswith("@@@@@"):
@@ -134,6 +101,11 @@ def _read_table(f, file_type, label_length):
     return headers, times, variables
 
 
+def _split(line):
+    """Split columns that can be contiguous when numbers are negative."""
+    return re.sub(r"(?<=[^\sEeDd])-(?=\d*\.)", " -", line).split()
+
+
 def _str2float(x):
     """Return numpy.nan if x cannot be converted."""
     try:
-- 
2.43.0


From d9d516d4138dc63d99b42e578d397d850a5b8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 24/79] fix: accept an array for labels_order when reading SAVE

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From d50fc52561ea38b1f8eb9fd19c05def11ea971b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 25/79] fix: do not overwrite the target when the SAVE file to
 convert is invalid

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..6bda820 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    with open(args.infile, "r") as f:
+        lines = f.readlines()
+
+    if not (lines and lines[0].startswith("INCON")):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in lines:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From 73bb463b917cdea0dc530f0de7531742de7f21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 26/79] fix: toughio-extract --split writes the requested file
 format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From cd208f5090141450c8646d2f27ffcc29abd2bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:07 +0000
Subject: [PATCH 27/79] fix: toughio-merge separates files without a trailing
 newline

---
 toughio/_cli/_merge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index dceffa5..e41cae4 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -49,6 +49,11 @@ def merge(argv=None):
         if line.upper()[:5] in {"ENDFI", "ENDCY"}:
             break
 
+    # Make sure that blocks are not glued together
+    for lines in [mesh_file, incon_file] if incon_exists else [mesh_file]:
+        if not lines[-1].endswith("\n"):
+            lines[-1] += "\n"
+
     # Buffer output file
     output_file = input_file[:i]
     output_file += mesh_file
-- 
2.43.0


From 92ccdd01ec561f1fd3950cdab8ed8b40fd6143d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:07 +0000
Subject: [PATCH 28/79] fix: read Fortran numbers without E in csv, petrasim,
 tecplot and history files

---
 toughio/_io/output/_helpers.py           | 3 ++-
 toughio/_io/output/csv/_csv.py           | 3 ++-
 toughio/_io/output/petrasim/_petrasim.py | 3 ++-
 toughio/_io/output/tecplot/_tecplot.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/_helpers.py b/toughio/_io/output/_helpers.py
index cb6c0dd..72f5e39 100644
--- a/toughio/_io/output/_helpers.py
+++ b/toughio/_io/output/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ..._common import filetype_from_filename, register_format
+from ..input.tough._helpers import str2float
 from ._common import Output
 
 __all__ = [
@@ -177,7 +178,7 @@ def read_history(filename):
         data = []
         line = f.readline().strip()
         while line:
-            data += [[float(x) for x in line.split(sep)]]
+            data += [[str2float(x.strip()) for x in line.split(sep)]]
             line = f.readline().strip()
         data = numpy.transpose(data)
 
diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 4353c1a..41b1c7a 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -88,7 +89,7 @@ def _read_csv(f, file_type):
         # Output
         else:
             tmp = [l.strip() for l in line[:ilab]]
-            tmp += [float(l.strip()) for l in line[ilab:]]
+            tmp += [str2float(l.strip()) for l in line[ilab:]]
             variables[-1].append(tmp)
 
         line = f.readline().strip().replace('"', "")
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 1f22584..810979e 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -26,7 +27,7 @@ def read(filename, file_type, file_format, labels_order):
                 line = line.split(",")
                 times.append(float(line[0]))
                 elements.append(line[1].strip())
-                data.append([float(x) for x in line[3:]])
+                data.append([str2float(x.strip()) for x in line[3:]])
             else:
                 break
 
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff62caf..c4d2e87 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ...._mesh.tecplot._tecplot import _read_variables, _read_zone
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -38,7 +39,7 @@ def read(filename, file_type, file_format, labels_order):
             data = []
             for _ in range(zone["I"]):
                 line = f.readline().strip()
-                data.append([float(x) for x in line.split()])
+                data.append([str2float(x) for x in line.split()])
             data = numpy.array(data)
 
             # Output
-- 
2.43.0


From b5d37e798dc4d35e53d7e4afdbf6049e6f24f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 29/79] fix: stop at end of file when reading Tecplot output

---
 toughio/_io/output/tecplot/_tecplot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index c4d2e87..0cd2ac4 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -16,10 +16,12 @@ def read(filename, file_type, file_format, labels_order):
     """Read OUTPUT_ELEME.tec."""
     with open(filename, "r") as f:
         # Look for header (VARIABLES)
-        while True:
-            line = f.readline().strip()
+        for line in f:
+            line = line.strip()
             if line.upper().startswith("VARIABLES"):
                 break
+        else:
+            raise ValueError("Variables not found")
 
         # Read header (VARIABLES)
         headers = _read_variables(line)
-- 
2.43.0


From bf64bc53867a8911feb090987401b7886dffdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 30/79] fix: stop at end of file when reading Tecplot mesh

---
 toughio/_mesh/tecplot/_tecplot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 09ea308..7792829 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -290,14 +290,20 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.strip().split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.strip().split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From bc026356b5f67fd0e6b3056b2e011845eb351fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 31/79] fix: read Tecplot mesh whose first value is negative

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 7792829..c14db77 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and line[0] not in "+-.0123456789":
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
-- 
2.43.0


From 5b5b8591c5dbf41bfef538dadecc36867c4c773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:21 +0000
Subject: [PATCH 32/79] fix: Tecplot zone type of meshes that start with 2D
 cells

---
 toughio/_mesh/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index c14db77..766c1f3 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -348,6 +348,7 @@ def write(filename, mesh):
         if len(numpy.unique(num_dims)) == 2:
             logging.warning("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3 for _ in cell_blocks]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From 746cdf1c860f39a5916bd93b2c8206bd48a7d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 33/79] fix: rename and reorder materials whose names are
 shorter than 5 characters

---
 toughio/_mesh/tough/_tough.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..517a573 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -177,12 +177,19 @@ def write_mesh(
     """Write MESH file."""
     # Check materials
     materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
+        material.strip() if isinstance(material, str) else material
         for material in materials
     ]
     material_name = material_name if material_name else {}
+    material_name = {
+        k.strip() if isinstance(k, str) else k: v for k, v in material_name.items()
+    }
     material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = [
+        material.strip() if isinstance(material, str) else material
+        for material in material_end
+    ]
 
     with open(filename, "w") as f:
         _write_eleme(
-- 
2.43.0


From 5e90268655f2c2a655bcd2b8f16d396b616b9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 34/79] fix: write MESH without connections

---
 toughio/_mesh/tough/_tough.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 517a573..f3533ea 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -346,6 +346,9 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From 6a60d579745da72b05cc73922a6a000a9a04b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 35/79] fix: write initial conditions that are all negative

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From a0b18c522de568591caffc26916fbc4656bd8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 36/79] fix: direction of anisotropy of connections along an
 axis does not depend on rounding

---
 toughio/_mesh/tough/_tough.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index f3533ea..c0217e9 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -445,7 +445,8 @@ def _isot(lines):
     It always returns 1 if the connection line is not colinear with X, Y or Z.
 
     """
-    mask = lines != 0.0
+    norms = numpy.linalg.norm(lines, axis=1)
+    mask = numpy.abs(lines) > 1.0e-8 * norms[:, None]
     return numpy.where(mask.sum(axis=1) == 1, mask.argmax(axis=1) + 1, 1)
 
 
-- 
2.43.0


From a17e5fe28d68d28166c1a332e8b02c57a910d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 37/79] fix: drop data of the cells that extrude_to_3d does not
 extrude

---
 toughio/_mesh/_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..00a51df 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -163,8 +163,12 @@ class Mesh(object):
                         else numpy.tile(v[ic], (nh, 1))
                     )
 
+        # Cell blocks that are not extruded are dropped
+        keep = [ic for ic, c in enumerate(mesh.cells) if c.type in extruded_types]
         mesh.cells = cells
-        mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
+        mesh.cell_data = {
+            k: numpy.concatenate([v[ic] for ic in keep]) for k, v in cell_data.items()
+        }
 
         if mesh.field_data:
             for k in mesh.field_data.keys():
-- 
2.43.0


From ed157a920692340c72510d6e94305c068aa54900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 38/79] fix: prune duplicate cells that are defined in several
 cell blocks

---
 toughio/_mesh/_mesh.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 00a51df..08c1e6a 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -215,13 +215,20 @@ class Mesh(object):
 
         # Prune duplicate cells
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        seen = set()
         for ic, (k, v) in enumerate(cells):
             vsort = numpy.sort(v, axis=1)
-            _, order = numpy.unique(vsort, axis=0, return_index=True)
+            vsort, order = numpy.unique(vsort, axis=0, return_index=True)
+
+            # The same cell can also be defined in a previous cell block
+            keys = [(k, tuple(cell)) for cell in vsort.tolist()]
+            order = order[[key not in seen for key in keys]]
+            seen.update(keys)
+
             cells[ic][1] = v[order]
             for kk, vv in cell_data.items():
                 cell_data[kk][ic] = vv[ic][order]
-        mesh.cells = cells
+        mesh.cells = [cell for cell in cells if len(cell[1])]
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if not inplace:
-- 
2.43.0


From 2b6f7b6b4ecbf542085fdd09b84cac9839628f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 39/79] fix: set_material with an empty selection or a tuple of
 booleans

---
 toughio/_mesh/_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 08c1e6a..fd17cb8 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -575,13 +575,15 @@ class Mesh(object):
         cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
 
-        if cond_int:
+        if len(cells) == 0:
+            return
+        elif cond_int:
             if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
                 raise ValueError()
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
-            cells = numpy.arange(self.n_cells)[cells]
+            cells = numpy.arange(self.n_cells)[numpy.asarray(cells)]
         else:
             raise TypeError()
 
-- 
2.43.0


From 2f1504065e1db65a6be318a28b7ab269968dde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 40/79] fix: set_material does not reuse the id of a material
 without cells

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index fd17cb8..a04cfb9 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -592,7 +592,7 @@ class Mesh(object):
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From 988ee89fea8f1b7f3541c2bdd75815d2814d284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 41/79] fix: materials are named after volumes when surfaces
 use the same ids

---
 toughio/_mesh/_properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_properties.py b/toughio/_mesh/_properties.py
index 329d3c3..83679bc 100644
--- a/toughio/_mesh/_properties.py
+++ b/toughio/_mesh/_properties.py
@@ -10,7 +10,9 @@ def _materials(mesh):
         if mesh.field_data:
             out = mesh.cell_data["material"]
             try:
-                field_data_dict = {v[0]: k for k, v in mesh.field_data.items()}
+                # Names of volumes prevail as ids are only unique in each dimension
+                field_data = sorted(mesh.field_data.items(), key=lambda x: x[1][1])
+                field_data_dict = {v[0]: k for k, v in field_data}
                 out = [field_data_dict[mat] for mat in out]
             except KeyError:
                 logging.warning(
-- 
2.43.0


From e440f9477608c12bd097e4b1e08cf84d1bf11067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 42/79] fix: interpolate data with several components

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From 8d1f2af566ebbe6e803b68d71f9f46a8d6587801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 43/79] fix: from_meshio does not modify its input

---
 toughio/_mesh/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index a04cfb9..ffd57ce 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -877,7 +877,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -892,9 +892,9 @@ def from_meshio(mesh, material="dfalt"):
     out = Mesh(
         points=mesh.points,
         cells=cells,
-        point_data=mesh.point_data,
+        point_data=dict(mesh.point_data),
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data),
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
-- 
2.43.0


From 3fb9020c02c1b59112e1fc93ce26298ae984295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 44/79] fix: from_meshio with field data that do not name
 volumes

---
 toughio/_mesh/_mesh.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index ffd57ce..1de79a3 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -906,11 +906,7 @@ def from_meshio(mesh, material="dfalt"):
     )
 
     if "material" not in out.cell_data.keys():
-        imat = (
-            numpy.max([v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
-            if mesh.field_data
-            else 1
-        )
+        imat = max([0] + [v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
         out.cell_data["material"] = numpy.full(out.n_cells, imat, dtype=int)
         out.field_data[material] = numpy.array([imat, 3])
 
-- 
2.43.0


From 8da918804e54294526091107850cc21fc6a2c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 45/79] fix: box filter with a zero length

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From a6bd9ceda4127b9a4370b0427261bb41a2818563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 46/79] fix: reordering an output does not modify it

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..4fa54d7 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=numpy.asarray(data.labels)[idx],
+        data={k: numpy.asarray(v)[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From c72dc5b020935a2669e4c869cf6403724cffdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 47/79] fix: set_material with tuples of indices or booleans

---
 toughio/_mesh/_mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 1de79a3..87ada40 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -577,13 +577,14 @@ class Mesh(object):
 
         if len(cells) == 0:
             return
-        elif cond_int:
-            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
-                raise ValueError()
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
             cells = numpy.arange(self.n_cells)[numpy.asarray(cells)]
+        elif cond_int:
+            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
+                raise ValueError()
+            cells = numpy.asarray(cells)
         else:
             raise TypeError()
 
-- 
2.43.0


From 0863b7c40d917e4903745bcac788e08efda1fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 48/79] fix: read consecutive face groups of ASCII FLAC3D grids

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..fbd0e1b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From 78543856f2bd5d65d765efd06e40ce10262bb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 49/79] fix: number groups of FLAC3D grids like their zones and
 faces

---
 toughio/_mesh/flac3d/_flac3d.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fbd0e1b..97f1b83 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -486,14 +486,27 @@ def _translate_faces(cells):
 
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
-    num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
+    cell_flags = numpy.concatenate(
+        [
+            numpy.full(
+                len(c[1]),
+                next((k for k, v in meshio_only.items() if c[0] in v.keys()), ""),
+                dtype="U4",
+            )
+            for c in cells
+        ]
     )
+
+    # Zones are numbered first, then faces
+    cell_ids = numpy.zeros(len(cell_flags), dtype=int)
+    count = 0
+    for k in ["zone", "face"]:
+        idx = numpy.nonzero(cell_flags == k)[0]
+        cell_ids[idx] = numpy.arange(len(idx)) + count + 1
+        count += len(idx)
+
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
+        k: cell_ids[numpy.logical_and(cell_data == k, cell_flags == flag)]
         for k in numpy.unique(cell_data)
     }
     groups = {k: v for k, v in groups.items() if v.size}
-- 
2.43.0


From 3a22ada924478b22143e568652c091ca274da436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 50/79] fix: read FLAC3D grids where some cells are in no group

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 97f1b83..a88a27d 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -197,8 +197,9 @@ def read_buffer(f, binary):
             if not slots[k]:
                 continue
 
-            for cid, zid in v.values():
-                cell_data[cid] = zid
+            for ids in v.values():
+                if len(ids) > 1:
+                    cell_data[ids[0]] = ids[1]
         cell_data = {"flac3d:group": numpy.split(cell_data, num_cells[:-1])}
     else:
         cell_data = {}
-- 
2.43.0


From 7bb74e3cd6510a5f61e8393b895fcc84b87c96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 51/79] fix: read FLAC3D grids where zone and face groups have
 the same name

---
 toughio/_mesh/flac3d/_flac3d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index a88a27d..dc9960d 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -291,9 +291,14 @@ def _update_cells(cells, cell, flag):
 
 def _update_field_data(field_data, mapper, data, name, gidx, flag):
     """Update field data dict."""
+    # A zone group and a face group can have the same name
+    if name in field_data:
+        gidx = field_data[name][0]
+    else:
+        field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
+
     for cid in data:
         mapper[cid].append(gidx)
-    field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
 
     return field_data, mapper
 
-- 
2.43.0


From 97f631014d65d4c4eb83a8584998aa8914c79f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 52/79] fix: read names with blanks in ASCII FLAC3D grids

---
 toughio/_mesh/flac3d/_flac3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index dc9960d..50359cc 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -259,7 +259,9 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
-        name = line[1].replace('"', "")
+        # Group names can contain blanks
+        name = " ".join(line[1:])
+        name = name.split('"')[1] if name.startswith('"') else line[1]
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-- 
2.43.0


From c6ae322b0f83cd81d871909233d52d41d3eb20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 53/79] fix: length of non-ASCII group names in binary FLAC3D
 grids

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 50359cc..beb44b8 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -416,11 +416,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                label = labels[k].encode("utf-8")
+                num_chars, num_zones = len(label), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    label,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From 2dad000ca7037d1557dbe78b76d1ca41f02bf874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 54/79] fix: from_pyvista reads the number of nodes of each
 cell with VTK 9

---
 toughio/_mesh/_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 87ada40..4da4903 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -963,12 +963,12 @@ def from_pyvista(mesh, material="dfalt"):
     cells = []
     c = 0
     for offset, cell_type in zip(vtk_offset, vtk_cell_type):
-        numnodes = vtk_cells[offset]
         if VTK9:
-            cell = vtk_cells[offset + 1 + c : offset + 1 + c + numnodes]
+            # Offsets do not count the numbers of nodes
+            offset += c
             c += 1
-        else:
-            cell = vtk_cells[offset + 1 : offset + 1 + numnodes]
+        numnodes = vtk_cells[offset]
+        cell = vtk_cells[offset + 1 : offset + 1 + numnodes]
         cell = (
             cell
             if cell_type not in pixel_voxel
-- 
2.43.0


From 2d721bd0bb2da36871c0fbeb9ab52ce94056983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 55/79] fix: read names of Tecplot mesh variables with several
 blanks

---
 toughio/_mesh/tecplot/_tecplot.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 766c1f3..e374f90 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -1,4 +1,5 @@
 import logging
+import re
 
 import numpy
 
@@ -168,20 +169,11 @@ def read_buffer(f):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
-    variables = []
-
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = "{}_{}".format(line[i], line[i + 1])
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    line = line.split("=", 1)[1].replace(",", " ")
+    variables = [
+        "_".join(quoted.split()) if quoted else name
+        for quoted, name in re.findall(r'"([^"]*)"|([^\s"]+)', line)
+    ]
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From 59987454c34cfe054b453647a5dd420ab429ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 56/79] fix: writing a VTK file does not modify point data of
 the mesh

---
 toughio/_mesh/_mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 4da4903..c3b89ad 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -265,8 +265,12 @@ class Mesh(object):
             Output mesh.
 
         """
-        keys = ["points", "point_data", "field_data"]
-        kwargs = {key: getattr(self, key) for key in keys}
+        # Some writers of meshio modify data dicts
+        kwargs = {
+            "points": self.points,
+            "point_data": dict(self.point_data),
+            "field_data": dict(self.field_data),
+        }
 
         version = get_meshio_version()
         cell_data = {k: self.split(v) for k, v in self.cell_data.items()}
-- 
2.43.0


From 6817c4deaae4e1ee6af1b6d586b6968075d14806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 57/79] fix: IRP of Fatt and Klikoff's function is 6

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From cf667fd4c39de1483f1dd7b438c16f782a402dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 58/79] fix: van Genuchten capillary pressure above the maximum
 liquid saturation

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..1564504 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -37,7 +37,7 @@ class vanGenuchten(BaseCapillarity):
     def _eval(self, sl, *args):
         """Van Genuchten function."""
         m, slr, alpha, pmax, sls = args
-        if sl == 1.0:
+        if sl == 1.0 or sl >= sls:
             pcap = 0.0
         else:
             if sl > slr:
-- 
2.43.0


From 6438642864c52b660235f723215f6a6e280c115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 59/79] fix: toughio-export gives data to the right voxels

---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..2627ed1 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Sort points like cells of the voxelized mesh
+            x, y, z = points.T
+            idx = numpy.lexsort((x, y, -z) if args.layer else (-z, y, x))
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From 08c9ad982869a43e09ded969380756b62c2b9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 60/79] fix: stop reading decks at ENDFI

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index a2eb1aa..0603b74 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -41,7 +41,7 @@ def read_buffer(f, label_length):
     parameters = {}
 
     # Title
-    keywords = tuple(block_to_format.keys()) + ("START", "NOVER", "ENDCY")
+    keywords = tuple(block_to_format.keys()) + ("START", "NOVER", "ENDCY", "ENDFI")
     line = f.readline()
     if not line.startswith(keywords):
         title = [line.strip()]
@@ -121,7 +121,7 @@ def read_buffer(f, label_length):
             parameters.update(_read_incon(fiter, label_length, f))
         elif line.startswith("NOVER"):
             parameters["nover"] = True
-        elif line.startswith("ENDCY"):
+        elif line.startswith(("ENDCY", "ENDFI")):
             break
 
     return parameters
-- 
2.43.0


From 7c927eac527ec1a133de452cf124029e67ef255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 61/79] fix: read SAVE files where some elements have no
 porosity or user variables

---
 toughio/_io/output/save/_save.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index 27c7e95..3ec2c73 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -15,21 +15,22 @@ def read(filename, file_type, file_format, labels_order):
     parameters = tough.read(filename)
 
     labels = list(parameters["initial_conditions"].keys())
-    variables = [v["values"] for v in parameters["initial_conditions"].values()]
+    variables = _to_array(
+        [v["values"] for v in parameters["initial_conditions"].values()]
+    )
 
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
     data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
+        [
+            v["porosity"] if "porosity" in v.keys() else numpy.nan
+            for v in parameters["initial_conditions"].values()
+        ]
     )
 
-    userx = [
-        v["userx"]
-        for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
-    ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    userx = [v.get("userx", []) for v in parameters["initial_conditions"].values()]
+    if any(userx):
+        data["userx"] = _to_array(userx)
 
     labels_order = (
         labels_order
@@ -38,3 +39,14 @@ def read(filename, file_type, file_format, labels_order):
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
+
+
+def _to_array(values):
+    """Convert to array and replace undefined values by NaN."""
+    out = numpy.full((len(values), max([0] + [len(x) for x in values])), numpy.nan)
+    for i, value in enumerate(values):
+        for j, x in enumerate(value):
+            if x is not None:
+                out[i, j] = x
+
+    return out
-- 
2.43.0


From fc4d956b1451c47830356eb91602f9674c0d1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 62/79] fix: write outputs without time to csv and Tecplot
 files

---
 toughio/_io/output/csv/_csv.py         | 3 ++-
 toughio/_io/output/tecplot/_tecplot.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 41b1c7a..a974286 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -126,7 +126,8 @@ def _write_csv(f, output, headers):
     ]
     for out in output:
         # Time step
-        f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
+        if out.time is not None:
+            f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
 
         # Table
         for i, label in enumerate(out.labels):
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index 0cd2ac4..121a87b 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -81,9 +81,10 @@ def write(filename, output):
         # Data
         for out in output:
             # Zone
-            record = ' ZONE T="{:14.7e} SEC"  I = {:8d}'.format(
-                out.time, len(out.data["X"])
-            )
+            record = " ZONE"
+            if out.time is not None:
+                record += ' T="{:14.7e} SEC" '.format(out.time)
+            record += " I = {:8d}".format(len(out.data["X"]))
             f.write("{}\n".format(record))
 
             # Table
-- 
2.43.0


From e1d12f8d1f99a0bdf862f2b55e7ffc024aa15995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 63/79] fix: write variables whose names start with ELEM to csv
 files

---
 toughio/_io/output/csv/_csv.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index a974286..0cd478c 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -121,9 +121,8 @@ def _write_csv(f, output, headers):
     f.write(",".join('"{:>18}"'.format(unit) for unit in units) + "\n")
 
     # Data
-    formats = [
-        '"{:>18}"' if header.startswith("ELEM") else "{:20.12e}" for header in headers
-    ]
+    ilab = 1 if output[-1].type == "element" else 2
+    formats = ['"{:>18}"'] * ilab + ["{:20.12e}"] * len(headers[ilab:])
     for out in output:
         # Time step
         if out.time is not None:
@@ -132,7 +131,7 @@ def _write_csv(f, output, headers):
         # Table
         for i, label in enumerate(out.labels):
             record = [label] if isinstance(label, str) else [l for l in label]
-            record += [out.data[k][i] for k in headers if not k.startswith("ELEM")]
+            record += [out.data[k][i] for k in headers[ilab:]]
             record = (
                 ",".join(
                     fmt.format(rec) if rec is not None else fmt.format(0.0)
-- 
2.43.0


From 574c5f4e9ed5e31db3dc748ed88c2f13a9ee71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 64/79] fix: renumber point sets when pruning duplicate points

---
 toughio/_mesh/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c3b89ad..1a6a327 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -212,6 +212,10 @@ class Mesh(object):
                 mesh.point_data[k] = v[pind]
             for ic, (k, v) in enumerate(cells):
                 cells[ic][1] = pinv[v]
+            mesh.point_sets = {
+                k: numpy.unique(pinv[numpy.asarray(v, dtype=int)])
+                for k, v in mesh.point_sets.items()
+            }
 
         # Prune duplicate cells
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
-- 
2.43.0


From ebd91d77714fc235e80531a3ea0e5ee6812f10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 65/79] fix: keep sets of cells when pruning duplicates

---
 toughio/_mesh/_mesh.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 1a6a327..032f289 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -219,6 +219,14 @@ class Mesh(object):
 
         # Prune duplicate cells
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        cell_sets = {
+            name: {
+                (cells[ic][0], tuple(sorted(cells[ic][1][i].tolist())))
+                for ic, ind in enumerate(v)
+                for i in (ind if ind is not None else [])
+            }
+            for name, v in mesh.cell_sets.items()
+        }
         seen = set()
         for ic, (k, v) in enumerate(cells):
             vsort = numpy.sort(v, axis=1)
@@ -234,6 +242,19 @@ class Mesh(object):
                 cell_data[kk][ic] = vv[ic][order]
         mesh.cells = [cell for cell in cells if len(cell[1])]
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
+        for name, members in cell_sets.items():
+            cell_sets[name] = [
+                numpy.array(
+                    [
+                        i
+                        for i, cell in enumerate(c.data.tolist())
+                        if (c.type, tuple(sorted(cell))) in members
+                    ],
+                    dtype=int,
+                )
+                for c in mesh.cells
+            ]
+        mesh.cell_sets = cell_sets
 
         if not inplace:
             return mesh
-- 
2.43.0


From d74111a2d9255291fc646148e81bce6d1ed04340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 66/79] fix: drop sets of the cell blocks that extrude_to_3d
 does not extrude

---
 toughio/_mesh/_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 032f289..b3336b1 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -169,6 +169,9 @@ class Mesh(object):
         mesh.cell_data = {
             k: numpy.concatenate([v[ic] for ic in keep]) for k, v in cell_data.items()
         }
+        mesh.cell_sets = {
+            k: [v[ic] for ic in keep] for k, v in mesh.cell_sets.items()
+        }
 
         if mesh.field_data:
             for k in mesh.field_data.keys():
-- 
2.43.0


From 9ce1d005ba7e57d801040c8c101c768c2ad8d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 67/79] fix: grids with spacings given in small integer or
 single precision types

Coordinates were accumulated and lengths multiplied in the type of the
spacings: depths of a grid with unsigned spacings were about 1.8e19, face
areas of a cylindric grid overflowed.
---
 toughio/meshmaker/_cylindric_grid.py  | 4 ++--
 toughio/meshmaker/_structured_grid.py | 4 ++++
 toughio/meshmaker/_voxelize.py        | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/toughio/meshmaker/_cylindric_grid.py b/toughio/meshmaker/_cylindric_grid.py
index 6f86b86..340c77d 100644
--- a/toughio/meshmaker/_cylindric_grid.py
+++ b/toughio/meshmaker/_cylindric_grid.py
@@ -105,8 +105,8 @@ def cylindric_grid(dr, dz, origin_z=None, layer=False, material="dfalt"):
     if not isinstance(material, str):
         raise TypeError()
 
-    dr = numpy.asarray(dr)
-    dz = numpy.asarray(dz)
+    dr = numpy.asarray(dr, dtype=float)
+    dz = numpy.asarray(dz, dtype=float)
     if not (dr > 0.0).all():
         raise ValueError()
     if not (dz > 0.0).all():
diff --git a/toughio/meshmaker/_structured_grid.py b/toughio/meshmaker/_structured_grid.py
index 80b1511..cb55579 100644
--- a/toughio/meshmaker/_structured_grid.py
+++ b/toughio/meshmaker/_structured_grid.py
@@ -41,6 +41,10 @@ def structured_grid(dx, dy, dz=None, origin=None, layer=False, material="dfalt")
     if not isinstance(material, str):
         raise TypeError()
 
+    dx = numpy.asarray(dx, dtype=float)
+    dy = numpy.asarray(dy, dtype=float)
+    dz = numpy.asarray(dz, dtype=float) if dz is not None else None
+
     order = "F" if layer else "C"
     if dz is None:
         ndim = 2
diff --git a/toughio/meshmaker/_voxelize.py b/toughio/meshmaker/_voxelize.py
index 60677f0..3bccdc7 100644
--- a/toughio/meshmaker/_voxelize.py
+++ b/toughio/meshmaker/_voxelize.py
@@ -55,7 +55,7 @@ def voxelize(points, origin, layer=False, material="dfalt"):
     if numpy.ndim(points) != 2:
         raise ValueError()
 
-    x, y, z = numpy.transpose(points)
+    x, y, z = numpy.transpose(numpy.asarray(points, dtype=float))
     x = numpy.unique(x)
     y = numpy.unique(y)
     z = numpy.unique(z)
-- 
2.43.0


From 7d1c8721379c2390ee319b2c51f7d288701a4c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 68/79] fix: plot relative permeability and capillarity with
 figsize None or an array

---
 toughio/capillarity/_base.py           | 4 ++--
 toughio/relative_permeability/_base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/capillarity/_base.py b/toughio/capillarity/_base.py
index e1f029d..6b4f1bf 100644
--- a/toughio/capillarity/_base.py
+++ b/toughio/capillarity/_base.py
@@ -79,7 +79,7 @@ class BaseCapillarity(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -93,7 +93,7 @@ class BaseCapillarity(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
diff --git a/toughio/relative_permeability/_base.py b/toughio/relative_permeability/_base.py
index a9db28a..80bd3c7 100644
--- a/toughio/relative_permeability/_base.py
+++ b/toughio/relative_permeability/_base.py
@@ -81,7 +81,7 @@ class BaseRelativePermeability(ABC):
             raise TypeError()
         if not (figsize is None or isinstance(figsize, (tuple, list, numpy.ndarray))):
             raise TypeError()
-        if len(figsize) != 2:
+        if figsize is not None and len(figsize) != 2:
             raise ValueError()
         if not (plt_kws is None or isinstance(plt_kws, dict)):
             raise TypeError()
@@ -95,7 +95,7 @@ class BaseRelativePermeability(ABC):
         if ax:
             ax1 = ax
         else:
-            figsize = figsize if figsize else (8, 5)
+            figsize = figsize if figsize is not None else (8, 5)
             fig = plt.figure(figsize=figsize, facecolor="white")
             ax1 = fig.add_subplot(1, 1, 1)
 
-- 
2.43.0


From b5da0ecb953c112ac0b138714783045241bc3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 69/79] fix: cylindric grids keep their own copy of the
 spacings

---
 toughio/meshmaker/_cylindric_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/meshmaker/_cylindric_grid.py b/toughio/meshmaker/_cylindric_grid.py
index 340c77d..4f371fa 100644
--- a/toughio/meshmaker/_cylindric_grid.py
+++ b/toughio/meshmaker/_cylindric_grid.py
@@ -105,8 +105,8 @@ def cylindric_grid(dr, dz, origin_z=None, layer=False, material="dfalt"):
     if not isinstance(material, str):
         raise TypeError()
 
-    dr = numpy.asarray(dr, dtype=float)
-    dz = numpy.asarray(dz, dtype=float)
+    dr = numpy.array(dr, dtype=float)
+    dz = numpy.array(dz, dtype=float)
     if not (dr > 0.0).all():
         raise ValueError()
     if not (dz > 0.0).all():
-- 
2.43.0


From c2bd5183309d4319ec5c9b2a2ca913da5147e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 70/79] fix: write block INDOM when only the fifth primary
 variable or a later one is set

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 25c28dc..25ef8b5 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -96,7 +96,7 @@ def write_buffer(parameters, block):
     indom = False
     for rock in parameters["rocks"].values():
         if "initial_condition" in rock.keys():
-            if any(x is not None for x in rock["initial_condition"][:4]):
+            if any(x is not None for x in rock["initial_condition"]):
                 indom = True
                 break
 
-- 
2.43.0


From 7aa3b51189c72c3a358308a0d259028de3eca3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:52 +0000
Subject: [PATCH 71/79] fix: names of lines are not names of volumes after
 extrude_to_3d

---
 toughio/_mesh/_mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index b3336b1..d4ba2ca 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -173,9 +173,10 @@ class Mesh(object):
             k: [v[ic] for ic in keep] for k, v in mesh.cell_sets.items()
         }
 
-        if mesh.field_data:
-            for k in mesh.field_data.keys():
-                mesh.field_data[k][1] = 3
+        # Only surfaces become volumes
+        for v in mesh.field_data.values():
+            if v[1] == 2:
+                v[1] = 3
 
         if not inplace:
             return mesh
-- 
2.43.0


From e104a2782996b4f6fe8e0c28bdf7397dca68d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 72/79] fix: prune_duplicates keeps the order of cells

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index d4ba2ca..75d1e91 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -238,7 +238,7 @@ class Mesh(object):
 
             # The same cell can also be defined in a previous cell block
             keys = [(k, tuple(cell)) for cell in vsort.tolist()]
-            order = order[[key not in seen for key in keys]]
+            order = numpy.sort(order[[key not in seen for key in keys]])
             seen.update(keys)
 
             cells[ic][1] = v[order]
-- 
2.43.0


From 4bb7fe13a0f4dd12acfa9491fc9949c68027e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 73/79] fix: set_material with the name of a surface whose id
 is the one of a volume

---
 toughio/_mesh/_mesh.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 75d1e91..5ba8674 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -623,11 +623,12 @@ class Mesh(object):
 
         if len(cells):
             data = self.cell_data["material"]
-            imat = (
-                self.field_data[material][0]
-                if material in self.field_data.keys()
-                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
-            )
+            # The name of a surface cannot be used if its id is the one of a volume
+            imat, ndim = self.field_data.get(material, (None, 0))
+            if imat is None or any(
+                v[0] == imat and v[1] > ndim for v in self.field_data.values()
+            ):
+                imat = max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             data[cells] = imat
             self.add_cell_data("material", data)
             self.field_data[material] = numpy.array([imat, 3])
-- 
2.43.0


From c989c8a7cb3d41f7eac3cf294dc9cfae13e128ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 74/79] fix: numbers too long for their field in MESH and INCON
 shifted the following ones

---
 toughio/_mesh/tough/_helpers.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 9af9a41..5063477 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -1,4 +1,5 @@
 from ..._common import block_to_format, str2format
+from ..._io.input.tough._helpers import write_record
 
 
 def block(keyword):
@@ -24,7 +25,7 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
     """Return a generator that iterates over the records of block ELEME."""
     label_length = len(labels[0])
     fmt = block_to_format["ELEME"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 5, 6])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 5, 6])
 
     iterables = zip(labels, materials, volumes, nodes)
     for label, material, volume, node in iterables:
@@ -34,7 +35,7 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             else material
         )
         mat = mat if isinstance(mat, str) else "{:>5}".format(str(mat))
-        record = fmt.format(
+        record = [
             label,  # ID
             "",  # NSEQ
             "",  # NADD
@@ -45,28 +46,27 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             node[0],  # X
             node[1],  # Y
             node[2],  # Z
-        )
-        yield record
+        ]
+        yield write_record(record, fmt)[0]
 
 
 def _write_coord(nodes):
     """Return a generator that iterates over the records of block COORD."""
-    fmt = "{:20.13e}{:20.13e}{:20.13e}\n"
+    fmt = str2format(block_to_format["COORD"])
 
     for node in nodes:
-        record = fmt.format(*node)
-        yield record
+        yield write_record(node, fmt)[0]
 
 
 def _write_conne(clabels, isot, d1, d2, areas, angles):
     """Return a generator that iterates over the records of block CONNE."""
     label_length = len(clabels[0][0])
     fmt = block_to_format["CONNE"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 3, 9])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 3, 9])
 
     iterables = zip(clabels, isot, d1, d2, areas, angles)
     for label, isot, d1, d2, area, angle in iterables:
-        record = fmt.format(
+        record = [
             "".join(label),  # ID1-ID2
             "",  # NSEQ
             "",  # NAD1
@@ -77,8 +77,8 @@ def _write_conne(clabels, isot, d1, d2, areas, angles):
             area,  # AREAX
             angle,  # BETAX
             "",  # SIGX
-        )
-        yield record
+        ]
+        yield write_record(record, fmt)[0]
 
 
 def _write_incon(labels, values, porosity=None, userx=None):
@@ -111,8 +111,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                 ignore_types += [4, 5, 6]
 
             fmt1 = str2format(fmt[label_length], ignore_types=ignore_types)
-            fmt1 = "{}\n".format("".join(fmt1[: len(values)]))
-            record = fmt1.format(*values)
+            record = write_record(values, fmt1)[0]
 
             # Record 2
             n = min(4, len(value))
@@ -126,8 +125,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                     ignore_types.append(i)
 
             fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-            fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-            record += fmt2.format(*values)
+            record += write_record(values, fmt2)[0]
 
             # Record 3 (EOS7R)
             if len(value) > 4:
@@ -141,8 +139,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                         ignore_types.append(i)
 
                 fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-                fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-                record += fmt2.format(*values)
+                record += write_record(values, fmt2)[0]
 
             yield record
         else:
-- 
2.43.0


From c77b68f63016b71d18342777e9b7fd1bba437b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 75/79] fix: integers too large for their field shifted the
 following ones

---
 toughio/_io/input/tough/_helpers.py | 7 +++++++
 toughio/_io/input/tough/_write.py   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fbb136d..3279dba 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -262,6 +262,9 @@ def write_record(data, fmt, multi=False):
         if isinstance(x, str):
             return fmt.replace("g", "").replace("e", "").format(x)
 
+        if fmt.endswith("g}") and isinstance(x, (int, numpy.integer)):
+            fmt = fmt.replace("g", "d")
+
         out = fmt.format(x)
         if fmt.endswith("e}"):
             # Lower the precision of numbers that are too long for their field
@@ -271,6 +274,10 @@ def write_record(data, fmt, multi=False):
                 precision -= 1
                 out = "{:>{}.{}e}".format(x, width, precision)
 
+        # Following fields would be shifted
+        if len(out) > int(fmt.strip("{:>dgfe}").split(".")[0]):
+            raise ValueError("Value {} does not fit its field.".format(x))
+
         return out
 
     if not multi:
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 25ef8b5..9064521 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -429,6 +429,8 @@ def _write_param(parameters):
     _mop = deepcopy(extra_options)
     _mop.update(parameters["extra_options"])
     mop = [" " if _mop[k] is None else str(_mop[k]) for k in sorted(_mop.keys())]
+    if any(len(x) != 1 for x in mop):
+        raise ValueError("Extra options must be single digits.")
 
     values = [
         data["n_iteration"],
@@ -587,6 +589,8 @@ def _write_momop(parameters):
     _momop.update(parameters["more_options"])
 
     tmp = [" " if _momop[k] is None else str(_momop[k]) for k in sorted(_momop.keys())]
+    if any(len(x) != 1 for x in tmp):
+        raise ValueError("More options must be single digits.")
     out = write_record(["".join(tmp)], fmt)
 
     return out
-- 
2.43.0


From c143c5eec40092da236feef223b7dfca8796d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 76/79] fix: values beyond the last field of a record were
 silently dropped

---
 toughio/_io/input/tough/_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index 3279dba..c3fa1ec 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -281,6 +281,9 @@ def write_record(data, fmt, multi=False):
         return out
 
     if not multi:
+        if any(x is not None for x in data[len(fmt) :]):
+            raise ValueError("Too many values for one record.")
+
         data = [to_str(d, f) for d, f in zip(data, fmt)]
         out = ["{:80}\n".format("".join(data))]
     else:
-- 
2.43.0


From b878e73f33bd8707124d212143ed0656bb960e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:48 +0000
Subject: [PATCH 77/79] fix: FLAC3D grids without comments or with blank lines
 were refused or cut

---
 toughio/_mesh/flac3d/_flac3d.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index beb44b8..afd8186 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -161,8 +161,10 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
+        line = f.readline()
         while line:
+            # Blank lines are skipped
+            line = line.split() or ["*"]
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
                 points.append(point)
@@ -188,7 +190,7 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
+            line = f.readline()
 
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
@@ -267,9 +269,9 @@ def _read_group(buf_or_line, binary, line=None):
 
         i = buf_or_line.tell()
         line = buf_or_line.readline()
-        while True:
-            line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
+        while line:
+            line = line.split()
+            if not line or line[0].isdigit():
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From 140c1b79792d41deb76f15b704c9c2f0f19e2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:48 +0000
Subject: [PATCH 78/79] fix: integer coordinates and small or unsigned indices
 gave wrong or no geometry

---
 toughio/_mesh/_mesh.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 5ba8674..c5616a6 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -705,7 +705,8 @@ class Mesh(object):
 
     @points.setter
     def points(self, value):
-        self._points = value
+        value = numpy.asarray(value)
+        self._points = value.astype(float) if value.dtype.kind in "iu" else value
 
     @property
     def cells(self):
@@ -721,7 +722,7 @@ class Mesh(object):
             self._cells = []
             self._cells_dict = value
         else:
-            self._cells = [CellBlock(k, v) for k, v in value]
+            self._cells = [CellBlock(k, _as_indices(v)) for k, v in value]
             self._cells_dict = {}
 
     @property
@@ -883,6 +884,13 @@ class Mesh(object):
         return MeshFilter(self)
 
 
+def _as_indices(data):
+    """Store connectivity as signed integers large enough for any index."""
+    if isinstance(data, numpy.ndarray) and data.dtype.kind in "iu":
+        return numpy.asarray(data, dtype=numpy.int64)
+    return data
+
+
 def from_meshio(mesh, material="dfalt"):
     """
     Convert a :class:`meshio.Mesh` to :class:`toughio.Mesh`.
-- 
2.43.0


From 7b0c81e9aeadc2994dd580f3184ca756282c7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:09 +0000
Subject: [PATCH 79/79] fix: extruding a mesh with tensor data gave data of the
 wrong size

---
 toughio/_mesh/_mesh.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c5616a6..8973cc6 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -133,11 +133,7 @@ class Mesh(object):
             extra_points[:, axis] += h
             mesh.points = numpy.vstack((mesh.points, extra_points))
         for k, v in mesh.point_data.items():
-            mesh.point_data[k] = (
-                numpy.tile(v, nh + 1)
-                if numpy.ndim(v) == 1
-                else numpy.tile(v, (nh + 1, 1))
-            )
+            mesh.point_data[k] = numpy.concatenate([v] * (nh + 1))
 
         extruded_types = {
             "triangle": "wedge",
@@ -157,11 +153,7 @@ class Mesh(object):
                 cells.append(cell)
 
                 for k, v in cell_data.items():
-                    v[ic] = (
-                        numpy.tile(v[ic], nh)
-                        if numpy.ndim(v[ic]) == 1
-                        else numpy.tile(v[ic], (nh, 1))
-                    )
+                    v[ic] = numpy.concatenate([v[ic]] * nh)
 
         # Cell blocks that are not extruded are dropped
         keep = [ic for ic, c in enumerate(mesh.cells) if c.type in extruded_types]
-- 
2.43.0

