From d4187ee4cf6043a7fee03945dce9a66032e5c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 01/31] fix: tr sets starting with \n or \0 are recognised as
 containing it

---
 pash_annotations/datatypes/BasicDatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..2660a97 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,11 +111,11 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        return name_as_string.find(r"\n") >= 0
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return name_as_string.find(r"\0") >= 0
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From 48ca35c8e7ce59226c2d2be3fe5b82f891b01ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 02/31] fix: inferring parallelizers no longer grows the stored
 parallelizer list

---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..217184e 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list)
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 1f2b9dd9471cdcc059ef1da83c474efdc92ae1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 03/31] fix: option arguments that are IO variables are visited
 like operands

---
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..98cd964 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, (OptionWithIO, OptionWithIOVar)):
+                # an option disappears together with its argument
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(type(flagoption)(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From 91e9a3c16b7ed605a7c18159eee7102a9a25d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 04/31] fix: mappers with auxiliary outputs forget the implicit
 streams they replace

---
 .../datatypes/parallelizability/MapperSpec.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..1ff2c9d 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,9 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_var in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                if implicit_var is not None:
+                    mapper.access_map.pop(implicit_var)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From 578d53a775b1fddc60352ec4c3b979c66d22fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 05/31] fix: substituting inputs and outputs leaves the
 caller's lists alone

---
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 98cd964..52ca4cb 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -56,6 +56,7 @@ class CommandInvocationWithIOVars:
         self.substitute_outputs_in_cmd_invocation(outputs_to)
 
     def substitute_inputs_in_cmd_invocation(self, inputs_from):
+        inputs_from = list(inputs_from)  # consumed below, the caller's list stays as it is
         def function_to_apply_to_vars(var):
             if self.access_map[var].is_stream_input():
                 new_var = inputs_from.pop(0)
@@ -66,6 +67,7 @@ class CommandInvocationWithIOVars:
         assert len(inputs_from) == 0
 
     def substitute_outputs_in_cmd_invocation(self, outputs_to):
+        outputs_to = list(outputs_to)  # consumed below, the caller's list stays as it is
         def function_to_apply_to_vars(var):
             if self.access_map[var].is_stream_output():
                 new_var = outputs_to.pop(0)
-- 
2.43.0


From 3f2796a12d85ed6d09c06378a46e12ec0f950a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 06/31] fix: aggregators derived from the command always write
 to the given output

---
 .../datatypes/parallelizability/AggregatorSpec.py      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..2d48dd2 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -230,11 +230,19 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         # access map modifications
         # Hard-coded how to provide input and get output -> TODO: move to spec
         aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs()
+        # only the variables in the remaining options are still used
+        option_args = [flagoption.get_arg() for flagoption in aggregator_cmd_inv.flag_option_list
+                       if not isinstance(flagoption, Flag)]
+        aggregator_cmd_inv.access_map = {var: access for var, access in aggregator_cmd_inv.access_map.items()
+                                         if var in option_args}
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        # the output may have been given explicitly, e.g., by an option
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
-- 
2.43.0


From 834bcc85fae811c8914bde83daa43d93c4e61dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 07/31] fix: bundled flags are mapped to their primary
 representation

---
 pash_annotations/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..f495145 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -40,7 +40,7 @@ def parse(command) -> CommandInvocationInitial:
             i += 1  # since we consumed another term for the argument
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
         else:
             break  # next one is Operand, and we keep these in separate list
-- 
2.43.0


From a256c12b2b02b23f97777070f087748675fa8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 08/31] fix: uniq, tail, mkfifo, col and xargs options that
 take an argument are options

---
 .../command_flag_option_info/data/col.json    | 12 +++++-----
 .../command_flag_option_info/data/mkfifo.json |  4 +---
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 .../command_flag_option_info/data/uniq.json   |  6 ++---
 .../command_flag_option_info/data/xargs.json  | 16 ++++++++------
 5 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..1a5f482 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,8 +1,5 @@
 {
     "flag": [
-        [
-            "-m"
-        ],
         [
             "-Z"
         ],
@@ -15,6 +12,7 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
         ],
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..3c443f2 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -39,6 +28,16 @@
         ]
     ],
     "option": [
+        [
+            "-c",
+            "--bytes",
+            "NUM"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
+        ],
         [
             "--max-unchanged-stats",
             "N"
@@ -48,6 +47,7 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
         ]
diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..b570198 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,10 @@
         [
             "-D"
         ],
-        "-f",
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +23,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -39,6 +36,7 @@
             "METHOD"
         ],
         [
+            "-f",
             "--skip-fields",
             "N"
         ],
@@ -47,10 +45,12 @@
             "METHOD"
         ],
         [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..8ff98b3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -11,17 +11,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -78,6 +71,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "max-chars"
+        ],
+        [
+            "--process-slot-var",
+            "NAME"
         ]
     ]
 }
-- 
2.43.0


From 4ed687467b721f0dfe52d3427e69eb299afdd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 09/31] fix: options with an optional argument do not take the
 next word as argument

---
 .../command_flag_option_info/data/diff.json   | 19 +++++++++++--------
 .../command_flag_option_info/data/grep.json   | 12 ++++--------
 .../command_flag_option_info/data/mkfifo.json |  7 ++-----
 .../command_flag_option_info/data/mv.json     |  4 ----
 .../command_flag_option_info/data/rm.json     | 17 +++++++----------
 .../command_flag_option_info/data/tee.json    | 10 ++++------
 .../command_flag_option_info/data/uniq.json   | 14 +++++---------
 .../command_flag_option_info/data/xargs.json  | 18 ++++++++++++------
 8 files changed, 45 insertions(+), 56 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..a5b1627 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -3,6 +3,14 @@
         [
             "--normal"
         ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
         [
             "-q",
             "--brief"
@@ -106,6 +114,9 @@
         [
             "--speed-large-files"
         ],
+        [
+            "--color"
+        ],
         [
             "--help"
         ],
@@ -116,15 +127,11 @@
     ],
     "option": [
         [
-            "-c",
             "-C",
-            "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
-            "--unified",
             "NUM"
         ],
         [
@@ -186,10 +193,6 @@
             "--horizon-lines",
             "NUM"
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
         [
             "--palette",
             "PALETTE"
diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..6ca501c 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -121,6 +121,10 @@
             "-U",
             "--binary"
         ],
+        [
+            "--color",
+            "--colour"
+        ],
         [
             "-z",
             "--null-data"
@@ -140,14 +144,6 @@
             "--file",
             ["FILE", "CONFIG_INPUT"]
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
-        [
-            "--colour",
-            "WHEN"
-        ],
         [
             "-m",
             "NUM"
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 1a5f482..03bc933 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,7 +1,8 @@
 {
     "flag": [
         [
-            "-Z"
+            "-Z",
+            "--context"
         ],
         [
             "--help"
@@ -15,10 +16,6 @@
             "-m",
             "--mode",
             "MODE"
-        ],
-        [
-            "--context",
-            "CTX"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b53afa..8b3d71a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -43,10 +43,6 @@
         ]
     ],
     "option": [
-        [
-            "--backup",
-            "CONTROL"
-        ],
         [
             "-S",
             "--suffix",
diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..d3c3b9f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -10,12 +10,18 @@
         [
             "-I"
         ],
+        [
+            "--interactive"
+        ],
         [
             "--one-file-system"
         ],
         [
             "--no-preserve-root"
         ],
+        [
+            "--preserve-root"
+        ],
         [
             "-r",
             "-R",
@@ -36,14 +42,5 @@
             "--version"
         ]
     ],
-    "option": [
-        [
-            "--interactive",
-            "WHEN"
-        ],
-        [
-            "--preserve-root",
-            "all"
-        ]
-    ]
+    "option": []
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..7d570b3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -11,6 +11,9 @@
         [
             "-p"
         ],
+        [
+            "--output-error"
+        ],
         [
             "--help"
         ],
@@ -18,10 +21,5 @@
             "--version"
         ]
     ],
-    "option": [
-        [
-            "--output-error",
-            "MODE"
-        ]
-    ]
+    "option": []
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index b570198..b224ef5 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -9,7 +9,11 @@
             "--repeated"
         ],
         [
-            "-D"
+            "-D",
+            "--all-repeated"
+        ],
+        [
+            "--group"
         ],
         [
             "-i",
@@ -31,19 +35,11 @@
         ]
     ],
     "option": [
-        [
-            "--all-repeated",
-            "METHOD"
-        ],
         [
             "-f",
             "--skip-fields",
             "N"
         ],
-        [
-            "--group",
-            "METHOD"
-        ],
         [
             "-s",
             "--skip-chars",
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 8ff98b3..729355e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -3,6 +3,18 @@
         [
             "--null"
         ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
+        ],
         [
             "-o",
             "--open-tty"
@@ -46,20 +58,14 @@
         ],
         [
             "-E",
-            "-e",
-            "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
-            "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
-            "--max-lines",
             "max-lines"
         ],
         [
-- 
2.43.0


From a2c8fba63f0eaac78119c6e5aabfbc5777fc24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 10/31] fix: long spellings of grep options are mapped to their
 short ones

---
 .../command_flag_option_info/data/grep.json   | 21 -------------------
 1 file changed, 21 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 6ca501c..3bc4c5d 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -133,9 +133,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -146,9 +143,6 @@
         ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -158,25 +152,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -190,17 +175,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From aaab7ef5b67140caf286c3fe7a54645af60f23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 11/31] fix: awk options that take an argument are options,
 programs may come from -e and -E

---
 .../InputOutputInfoGeneratorAwk.py            |  2 +-
 .../command_flag_option_info/data/awk.json    | 52 +++++++++++--------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..995740d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -7,7 +7,7 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..5edbd15 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -65,7 +45,7 @@
             "--use-lc-numeric"
         ],
         [
-            "-ofile",
+            "-o",
             "--pretty-print"
         ],
         [
@@ -102,6 +82,36 @@
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "ASSIGNMENT"
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM-TEXT"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            "SOURCE-FILE"
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From f971082bc7ed4bc0033e742b234387f4cc36f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 12/31] fix: sed takes its scripts from -e and -f, edits in
 place with -i and reads stdin only without files

---
 .../InputOutputInfoGeneratorSed.py            |  7 ++++++-
 .../ParallelizabilityInfoGeneratorSed.py      | 17 ++++++++++++---
 .../command_flag_option_info/data/sed.json    | 21 +++++++++----------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..5928c24 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,16 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
+        if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
+            raise Exception('sed with -i changes its input files so it is considered side-effectful')
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             self.set_first_operand_as_config_arg_type_string()
             self.all_but_first_operand_is_streaming_input()
+            number_of_files = self.get_operand_list_length() - 1
         else:
             self.all_operands_are_streaming_inputs()
+            number_of_files = self.get_operand_list_length()
+        if number_of_files == 0:
+            self.set_implicit_use_of_stdin()
 
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..37040ed 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -9,9 +9,20 @@ class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface)
 
     def generate_info(self) -> None:
         # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        # -f: the script is not known, -i: changes the input files, -z: input is not split into lines
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i", "-z"]):
+            return
+        if all(self.is_script_line_wise(script) for script in self.get_scripts()):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    def get_scripts(self):
+        options_with_script = self.get_flag_option_list_filtered_with(["-e"])
+        if len(options_with_script) > 0:
+            return [str(option.get_arg()) for option in options_with_script]
+        return [self.get_first_operand_name_as_string()]
+
+    @staticmethod
+    def is_script_line_wise(script):
+        return script.startswith("s") or not ("d" in script or "q" in script)
+
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..c1eb158 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -9,15 +9,11 @@
             "--debug"
         ],
         [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
+            "--follow-symlinks"
         ],
         [
-            "--follow-symlinks"
+            "-i",
+            "--in-place"
         ],
         [
             "--posix"
@@ -51,14 +47,17 @@
     ],
     "option": [
         [
-            "--in-place",
-            "SUFFIX"
+            "-e",
+            "--expression",
+            "SCRIPT"
         ],
         [
-            "-l",
-            "N"
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ],
         [
+            "-l",
             "--line-length",
             "N"
         ]
-- 
2.43.0


From 3c68429e1de8cf99499403882698c24f2d55d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 13/31] fix: recursive grep without files does not read stdin

---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..37d5bd1 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -23,12 +23,14 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
+                self.fail_if_recursive()
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_operands_are_streaming_inputs() # this is true also if empty
         else:
             self.set_first_operand_as_config_arg_type_string()
             if self.get_operand_list_length() == 1:
+                self.fail_if_recursive()
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_but_first_operand_is_streaming_input()
@@ -40,3 +42,8 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         #         # self.set_ioinfo_positional_input_list([Operand("$PWD")]) # TODO: this is not exactly equivalent due to path and type wrong
         #     else:
         #         self.set_implicit_use_of_stdin()
+
+    def fail_if_recursive(self) -> None:
+        # without files, the working directory is searched instead of stdin
+        if self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]):
+            raise Exception("-r option without file or directory not handled")
-- 
2.43.0


From 98913d6dcf7ae4cda25beaea8eed8e2b0bdbec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 14/31] fix: sort is commutative only if its output does not
 depend on the order of its input

---
 .../ParallelizabilityInfoGeneratorCustomSort.py      | 12 ++++++++++--
 .../ParallelizabilityInfoGeneratorSort.py            | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..da5e465 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -12,10 +12,11 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
 
     def generate_info(self) -> None:
         # copied from sort
-        self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
+                or self.is_sort_order_random():
             pass    # no parallelization
         else:
+            self.set_commutative()
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
             transformer_add = TransformerFlagOptionListAdd([Flag("-m")])
@@ -26,3 +27,10 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_sort_order_random(self) -> bool:
+        # same as -R, for all keys (words may be abbreviated) or for a single one
+        return any("random".startswith(str(option.get_arg()))
+                   for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+            or any("R" in str(option.get_arg())
+                   for option in self.get_flag_option_list_filtered_with(["-k"]))
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..c477c4a 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -13,10 +13,11 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
     # Which ones do affect parallelizability?
 
     def generate_info(self) -> None:
-        self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]) \
+                or self.is_sort_order_random():
             pass    # no parallelization
         else:
+            self.set_commutative()
             # Build aggregator spec: keep certain flags with filtering and add -m
             transformer_filter = TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"])
             transformer_add = TransformerFlagOptionListAdd([Flag("-m")])
@@ -27,3 +28,10 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_sort_order_random(self) -> bool:
+        # same as -R, for all keys (words may be abbreviated) or for a single one
+        return any("random".startswith(str(option.get_arg()))
+                   for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+            or any("R" in str(option.get_arg())
+                   for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From bb795cfc531daf5700abeb7c39f370ca53410026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 15/31] fix: grep -z and xargs with own delimiters are not
 parallelized by lines

---
 .../ParallelizabilityInfoGeneratorGrep.py                   | 3 ++-
 .../ParallelizabilityInfoGeneratorXargs.py                  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..ea62265 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -23,7 +23,8 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # for -m, we only do IF
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
+        # for -z, the input is not split into lines
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-z"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
index 0d459ab..5bf08ce 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
@@ -4,8 +4,10 @@ class ParallelizabilityInfoGeneratorXargs(ParallelizabilityInfoGeneratorInterfac
 
     def generate_info(self) -> None:
         # in original, there is a case distinction but same info
-        self.append_to_parallelizer_list_cc_seq_conc()
-        self.append_to_parallelizer_list_rr_seq_conc()
+        # with these, items may span several lines or the input may end early
+        if not self.does_flag_option_list_contain_at_least_one_of(["--null", "--delimiter", "-E", "-e"]):
+            self.append_to_parallelizer_list_cc_seq_conc()
+            self.append_to_parallelizer_list_rr_seq_conc()
 
 
 
-- 
2.43.0


From c07a65b1c75ad77bcb4a3c718fa81a1e9c6a9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 16/31] fix: tr decides by the contents of its sets whether
 newlines are squeezed or deleted

---
 .../ParallelizabilityInfoGeneratorTr.py       | 53 +++++++++++++++----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..d38ffb8 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -1,3 +1,5 @@
+import re
+
 from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
 from pash_annotations.datatypes.BasicDatatypes import Operand
 
@@ -24,10 +26,13 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         # res = self.does_last_set_effectively_contain_newline()
         # print("res: " + res)
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
-                                     self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
-        # check for squeezing newlines
+                                     self.does_first_set_effectively_contain_newline()
+
+        # check for squeezing newlines; lines are also joined if newlines are translated before squeezing
         does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
+                                      (self.does_last_set_effectively_contain_newline() or
+                                       self.does_first_set_effectively_contain_newline())
+
         if does_delete_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
@@ -41,14 +46,40 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
-    def does_last_set_effectively_contain_newline(self) -> bool:
-        last_operand: Operand = self.cmd_inv.operand_list[-1]
+    def does_first_set_effectively_contain_newline(self) -> bool:
         # is contained if (a) no -c and in set, or (b) -c and not in set
-        last_operand_contains_newline: bool = last_operand.contains_new_line()
-        last_operand_contains_null_char: bool = last_operand.contains_null_char()
-        if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
-        else:  # '-c' (if existent) does not refer to the given set
-            return (last_operand_contains_newline or last_operand_contains_null_char)
+        contains_newline: bool = self.does_set_contain_newline(self.cmd_inv.operand_list[0])
+        if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
+            return not contains_newline
+        return contains_newline
+
+    def does_last_set_effectively_contain_newline(self) -> bool:
+        if len(self.cmd_inv.operand_list) == 1:
+            return self.does_first_set_effectively_contain_newline()
+        # '-c' (if existent) does not refer to the given set
+        return self.does_set_contain_newline(self.cmd_inv.operand_list[-1])
+
+    @staticmethod
+    def does_set_contain_newline(operand: Operand) -> bool:
+        tr_set: str = str(operand.get_name())
+        if "[:space:]" in tr_set or "[:cntrl:]" in tr_set:
+            return True
+        elements = re.findall(r"\\[0-7]{1,3}|\\.|.", tr_set, re.DOTALL)
+        codes = [get_char_code(element) for element in elements]
+        newline: int = ord("\n")
+        for i, element in enumerate(elements):
+            if codes[i] == newline:
+                return True
+            if element == "-" and 0 < i < len(elements) - 1 and codes[i-1] < newline < codes[i+1]:
+                return True
+        return False
 
 
+def get_char_code(element: str) -> int:
+    # element of a set for tr: a character, or a backslash followed by one or by octal digits
+    if len(element) > 1 and element[1] in "01234567":
+        return int(element[1:], 8)
+    escaped = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13}
+    if len(element) > 1 and element[1] in escaped:
+        return escaped[element[1]]
+    return ord(element[-1])
-- 
2.43.0


From cf15e24dec11277785a03a26d277729689d39114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 17/31] fix: the command-line tool saves relative to the caller
 and never overwrites

---
 pash_annotations/annotation_cli.py | 33 +++++++++++-------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..d622d1b 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -22,25 +22,9 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
-shall_we_write_to_file = False
-if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(script_prefix + where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
-    if not shall_we_write_to_file:
-        print("There exists a file on the provided path so the result will be output (only). ")
-
-
 result = ""
 result += ">>> READ COMMAND INVOCATION: \n" + cmd_invocation + "\n\n"
 
@@ -65,9 +49,16 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 # TODO: change representation when we move commutativity into parallelizers
 result += str(para_info)
 
-if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
-    text_file.write(result)
-    text_file.close()
-else:
+shall_we_print = True
+if where_to_save is not None:
+    try:
+        with open(where_to_save, "x") as text_file: # fails if the file exists
+            text_file.write(result)
+        shall_we_print = False
+    except FileExistsError:
+        print("There exists a file on the provided path so the result will be output (only). ")
+    except OSError as error:
+        print(f"The file cannot be written ({error}) so the result will be output (only). ")
+
+if shall_we_print:
     print(result)
-- 
2.43.0


From 5b5070dfe89351cd0193d7358e24a1b4d0373391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 18/31] fix: the man-page converter merges the spellings of an
 option and emits well-formed entries

---
 .../parser/command_flag_option_info/args-to-json.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 222f7ed..d95bba7 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -48,18 +48,17 @@ def find_matches(line, past_flags):
 def parse_args(args):
     """
     Flags: ['--flag']; ['-F']; ['-F', '--flag']
-    Options: [('-opt', 'ARG')]; [('--opt', 'ARG')]; [('-opt', 'ARG'), ('--opt', 'ARG')]
+    Options: [('-opt', 'ARG')]; [('--opt', 'ARG')]; ['-opt', ('--opt', 'ARG')]; [('-opt', 'ARG'), ('--opt', 'ARG')]
+    The flags or options of a line are different spellings of the same one, if one takes an argument, all do.
     """
     args_dict = {"flag": [], "option": []}
     for line_args in args:
         if all([type(arg)==str for arg in line_args]):
             args_dict["flag"].append(list(line_args))
         else:
-            for arg in line_args:
-                if type(arg)==str:
-                    args_dict["flag"].append(arg)
-                else:
-                    args_dict["option"].append(list(arg))
+            spellings = [arg if type(arg)==str else arg[0] for arg in line_args]
+            option_args = [arg[1] for arg in line_args if type(arg)!=str]
+            args_dict["option"].append(spellings + option_args[-1:])
     return args_dict
 
 def parse_lines(lines):
-- 
2.43.0


From ee25d6aece90249dd4ac31dee965a089849642f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 19/31] fix: command names which are no file names have no
 flags and options

---
 pash_annotations/parser/util_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..0ac3717 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -6,8 +6,10 @@ def get_json_data(cmd_name):
     command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
+        if '/' in cmd_name:
+            raise FileNotFoundError # a path to some program, not to one of our files
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except OSError: # no such file or no valid file name
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0


From 1eda8eac40c338a05f5784e5cc3cf975031c7ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 20/31] fix: options with stream arguments and splitters are
 compared structurally

---
 .../datatypes/parallelizability/Splitter.py                   | 2 +-
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
index 6d5930d..d296543 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
@@ -14,7 +14,7 @@ class Splitter:
         self.kind = kind
 
     def __eq__(self, other) -> bool:
-        return self.kind == other.kind
+        return isinstance(other, Splitter) and self.kind == other.kind
 
     def __repr__(self) -> str:
         return f'{self.kind}'
diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..b81791b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,9 +1,9 @@
 from typing import Union
-from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType, BaseClassForBasicDatatypes
 
 IOVar = int
 
-class OptionWithIOVar:
+class OptionWithIOVar(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str, option_arg: Union[IOVar, ArgStringType]) -> None:
         self.option_name : str = name
-- 
2.43.0


From 3e2cc7cc7fc17ae845db2af26ef5d7ae77eb9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 21/31] fix: xargs -0 and tr --truncate-set1 are spellings of
 flags

---
 pash_annotations/parser/command_flag_option_info/data/tr.json  | 3 ++-
 .../parser/command_flag_option_info/data/xargs.json            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tr.json b/pash_annotations/parser/command_flag_option_info/data/tr.json
index 8e8b092..53b9d81 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tr.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tr.json
@@ -14,7 +14,8 @@
             "--squeeze-repeats"
         ],
         [
-            "-t"
+            "-t",
+            "--truncate-set1"
         ],
         [
             "--help"
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 729355e..2379e4b 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,7 +1,8 @@
 {
     "flag": [
         [
-            "--null"
+            "--null",
+            "-0"
         ],
         [
             "-e",
-- 
2.43.0


From 3a8299cfc88414dd2f018c6d6095a57a20b6505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 22/31] fix: xargs -a reads its items from a file, so splitting
 stdin is no plan

---
 .../ParallelizabilityInfoGeneratorXargs.py                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
index 5bf08ce..a5ea732 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
@@ -4,8 +4,8 @@ class ParallelizabilityInfoGeneratorXargs(ParallelizabilityInfoGeneratorInterfac
 
     def generate_info(self) -> None:
         # in original, there is a case distinction but same info
-        # with these, items may span several lines or the input may end early
-        if not self.does_flag_option_list_contain_at_least_one_of(["--null", "--delimiter", "-E", "-e"]):
+        # with these, items may span several lines, the input may end early or is not stdin
+        if not self.does_flag_option_list_contain_at_least_one_of(["--null", "--delimiter", "-E", "-e", "-a"]):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
-- 
2.43.0


From dba10df81229d948d662bb1c1a2600980d95ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 23/31] fix: grep with context, a maximal number of matches or
 file names is not parallelized by lines

---
 .../ParallelizabilityInfoGeneratorGrep.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index ea62265..fe3bffd 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -23,8 +23,9 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # for -m, we only do IF
 
     def generate_info(self) -> None:
-        # for -z, the input is not split into lines
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-z"]):
+        # for -z, the input is not split into lines; -A, -B, -C, and -m consider more than a single line;
+        # for -H, the name of the original input is printed
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-z", "-A", "-B", "-C", "-m", "-H"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From 5d948faf75f68833933a1c928676288b0047cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 24/31] fix: mappers forget the access of streams which their
 transformer drops

---
 .../datatypes/parallelizability/MapperSpec.py                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index 1ff2c9d..2a15a35 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -75,6 +75,10 @@ class MapperSpec:
                             implicit_use_of_streaming_input = original_cmd_invocation.implicit_use_of_streaming_input,
                             implicit_use_of_streaming_output = original_cmd_invocation.implicit_use_of_streaming_output,
                             access_map = original_cmd_invocation.access_map)
+            # only the variables which the transformer kept are still used
+            used_vars: List[IOVar] = []
+            mapper.map_var(lambda var: used_vars.append(var) or var)
+            mapper.access_map = {var: access for var, access in mapper.access_map.items() if var in used_vars}
         else:
             raise Exception("MapperSpec with unknown kind!")
         if len(aux_output_tos) == 0: # we previously checked that they are as many as specified in the parallelizer
-- 
2.43.0


From c55dec25c8988d8361664c26c5a61838dcc328dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 25/31] fix: the command-line tool stores reports with
 arguments that are not valid in the locale's encoding

---
 pash_annotations/annotation_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index d622d1b..0e89a11 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -52,7 +52,7 @@ result += str(para_info)
 shall_we_print = True
 if where_to_save is not None:
     try:
-        with open(where_to_save, "x") as text_file: # fails if the file exists
+        with open(where_to_save, "x", errors="surrogateescape") as text_file: # fails if the file exists
             text_file.write(result)
         shall_we_print = False
     except FileExistsError:
-- 
2.43.0


From 1e0f9ccc72b17d382cfc897ff2063a207bdc3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 26/31] fix: the man-page converter only drops spellings that
 are the same, not those that differ in dashes

---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index d95bba7..6de9c28 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -33,7 +33,7 @@ def find_matches(line, past_flags):
             phrase_parts = re.split(r"\s+", phrases[i])
 
         if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z][a-z-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
-            flag = re.sub("-", '', phrase_parts[0])
+            flag = phrase_parts[0]
             # ignore duplicate flags
             if flag not in past_flags:
                 past_flags.add(flag)
-- 
2.43.0


From 64a2a50391acbbaada4330f599671efaec5c6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 27/31] fix: the man-page converter keeps options with digits,
 like --files0-from and -0

---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 6de9c28..b0e4122 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -32,7 +32,7 @@ def find_matches(line, past_flags):
         else:
             phrase_parts = re.split(r"\s+", phrases[i])
 
-        if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z][a-z-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
+        if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z0-9][a-z0-9-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
             flag = phrase_parts[0]
             # ignore duplicate flags
             if flag not in past_flags:
-- 
2.43.0


From eb6c812e0b6707d2486362b27a02ab2db5cefc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 28/31] fix: the tables of tail, wc, mv, diff and cut list the
 documented options

---
 .../command_flag_option_info/data/cut.json    |  3 --
 .../command_flag_option_info/data/diff.json   | 28 +++++++++++++++++++
 .../command_flag_option_info/data/mv.json     |  6 ++++
 .../command_flag_option_info/data/tail.json   |  3 ++
 .../command_flag_option_info/data/wc.json     |  4 +++
 5 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/cut.json b/pash_annotations/parser/command_flag_option_info/data/cut.json
index 51bbc37..690758e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/cut.json
+++ b/pash_annotations/parser/command_flag_option_info/data/cut.json
@@ -19,9 +19,6 @@
         ],
         [
             "--version"
-        ],
-        [
-            "-M"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index a5b1627..18430d0 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -185,6 +185,34 @@
             "--ifdef",
             "NAME"
         ],
+        [
+            "--old-group-format",
+            "GFMT"
+        ],
+        [
+            "--new-group-format",
+            "GFMT"
+        ],
+        [
+            "--unchanged-group-format",
+            "GFMT"
+        ],
+        [
+            "--changed-group-format",
+            "GFMT"
+        ],
+        [
+            "--old-line-format",
+            "LFMT"
+        ],
+        [
+            "--new-line-format",
+            "LFMT"
+        ],
+        [
+            "--unchanged-line-format",
+            "LFMT"
+        ],
         [
             "--line-format",
             "LFMT"
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b3d71a..58dc13a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -4,6 +4,9 @@
             "-b",
             "--backup"
         ],
+        [
+            "--debug"
+        ],
         [
             "-f",
             "--force"
@@ -16,6 +19,9 @@
             "-n",
             "--no-clobber"
         ],
+        [
+            "--no-copy"
+        ],
         [
             "--strip-trailing-slashes"
         ],
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 3c443f2..d52ec28 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -4,6 +4,9 @@
             "-f",
             "--follow"
         ],
+        [
+            "-F"
+        ],
         [
             "-q",
             "--quiet",
diff --git a/pash_annotations/parser/command_flag_option_info/data/wc.json b/pash_annotations/parser/command_flag_option_info/data/wc.json
index b39fb51..174c602 100644
--- a/pash_annotations/parser/command_flag_option_info/data/wc.json
+++ b/pash_annotations/parser/command_flag_option_info/data/wc.json
@@ -31,6 +31,10 @@
         [
             "--files0-from",
             "GLOB"
+        ],
+        [
+            "--total",
+            "WHEN"
         ]
     ]
 }
-- 
2.43.0


From 97bac65da20a9ada6a4acc3294aeff35848b6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 29/31] fix: the numbers of context lines of grep (-NUM) are
 flags, and no reason to read from a file of that name

---
 .../ParallelizabilityInfoGeneratorGrep.py     |  5 ++--
 .../command_flag_option_info/data/grep.json   | 30 +++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index fe3bffd..2bda8d2 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -23,9 +23,10 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # for -m, we only do IF
 
     def generate_info(self) -> None:
-        # for -z, the input is not split into lines; -A, -B, -C, and -m consider more than a single line;
+        # for -z, the input is not split into lines; -A, -B, -C (or a number as in -5), and -m consider more than a single line;
         # for -H, the name of the original input is printed
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-z", "-A", "-B", "-C", "-m", "-H"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-z", "-A", "-B", "-C", "-m", "-H"]
+                                                               + [f"-{digit}" for digit in range(10)]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 3bc4c5d..077a252 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -128,6 +128,36 @@
         [
             "-z",
             "--null-data"
+        ],
+        [
+            "-0"
+        ],
+        [
+            "-1"
+        ],
+        [
+            "-2"
+        ],
+        [
+            "-3"
+        ],
+        [
+            "-4"
+        ],
+        [
+            "-5"
+        ],
+        [
+            "-6"
+        ],
+        [
+            "-7"
+        ],
+        [
+            "-8"
+        ],
+        [
+            "-9"
         ]
     ],
     "option": [
-- 
2.43.0


From e820e2e19b713ee440a8a4d1610294294bb66927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 30/31] fix: streams of an invocation can replace each other
 and be mentioned repeatedly

---
 .../datatypes/parallelizability/MapperSpec.py |  7 ++-
 .../datatypes/CommandInvocationWithIOVars.py  | 50 +++++++++++--------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index 2a15a35..fc52c84 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -87,10 +87,9 @@ class MapperSpec:
             # ASSUMPTION: operands given in that order: input, output, aux_output_1, aux_output_2, ...
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
-                mapper.access_map.pop(operand)
-            for implicit_var in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
-                if implicit_var is not None:
-                    mapper.access_map.pop(implicit_var)
+            # only the variables in options are still used
+            option_args = [flagoption.get_arg() for flagoption in mapper.flag_option_list if not isinstance(flagoption, Flag)]
+            mapper.access_map = {var: access for var, access in mapper.access_map.items() if var in option_args}
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 52ca4cb..96cba73 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -52,30 +52,30 @@ class CommandInvocationWithIOVars:
     def substitute_inputs_and_outputs_in_cmd_invocation(self,
                                                         inputs_from: List[IOVar],
                                                         outputs_to: List[IOVar]) -> None:
-        self.substitute_inputs_in_cmd_invocation(inputs_from)
-        self.substitute_outputs_in_cmd_invocation(outputs_to)
+        self.substitute_streams(inputs_from, outputs_to)
 
     def substitute_inputs_in_cmd_invocation(self, inputs_from):
-        inputs_from = list(inputs_from)  # consumed below, the caller's list stays as it is
-        def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_input():
-                new_var = inputs_from.pop(0)
-                return self.replace_var_consistently(var, new_var)
-            else:
-                return var
-        self.map_var(function_to_apply_to_vars)
-        assert len(inputs_from) == 0
+        self.substitute_streams(inputs_from, None)
 
     def substitute_outputs_in_cmd_invocation(self, outputs_to):
-        outputs_to = list(outputs_to)  # consumed below, the caller's list stays as it is
+        self.substitute_streams(None, outputs_to)
+
+    # None leaves the streams as they are
+    def substitute_streams(self, inputs_from: Optional[List[IOVar]], outputs_to: Optional[List[IOVar]]) -> None:
+        inputs_left = list(inputs_from) if inputs_from is not None else []
+        outputs_left = list(outputs_to) if outputs_to is not None else []
+        new_access_map = {} # separate since new variables may be among those substituted
         def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_output():
-                new_var = outputs_to.pop(0)
-                return self.replace_var_consistently(var, new_var)
-            else:
-                return var
+            access = self.access_map[var]
+            if access.is_stream_input() and inputs_from is not None:
+                var = inputs_left.pop(0)
+            elif access.is_stream_output() and outputs_to is not None:
+                var = outputs_left.pop(0)
+            new_access_map[var] = access
+            return var
         self.map_var(function_to_apply_to_vars)
-        assert len(outputs_to) == 0
+        assert len(inputs_left) == 0 and len(outputs_left) == 0
+        self.access_map = new_access_map
 
     def generate_inputs(self):
         streaming_inputs = []
@@ -111,8 +111,10 @@ class CommandInvocationWithIOVars:
         return to_var
 
     def replace_var(self, from_var, to_var):
-        function_to_apply_to_var = lambda el: self.replace_var_consistently(from_var, to_var) if el == from_var else el
+        function_to_apply_to_var = lambda el: to_var if el == from_var else el
         self.map_var(function_to_apply_to_var)
+        if from_var in self.access_map:
+            self.replace_var_consistently(from_var, to_var)
 
     def flat_map_non_names_aux_flag_option_list(self, function_to_apply):
         new_flag_option_list = []
@@ -176,23 +178,29 @@ class CommandInvocationWithIOVars:
 
     def remove_streaming_inputs(self):
         # TODO: check whether this removes options with streaming input
+        removed = set() # a stream can be mentioned more than once
         def function_to_apply(el):
            if isinstance(el, int) and self.access_map[el].is_stream_input():
-               self.access_map.pop(el)
+               removed.add(el)
                return []
            else:
                return [el]
         self.flat_map_anything_non_names(function_to_apply)
+        for el in removed:
+            self.access_map.pop(el)
 
     def remove_streaming_outputs(self):
         # TODO: check whether this removes options with streaming output
+        removed = set() # a stream can be mentioned more than once
         def function_to_apply(el):
             if isinstance(el, int) and self.access_map[el].is_stream_output():
-                self.access_map.pop(el)
+                removed.add(el)
                 return []
             else:
                 return [el]
         self.flat_map_anything_non_names(function_to_apply)
+        for el in removed:
+            self.access_map.pop(el)
 
 
     # for test cases:
-- 
2.43.0


From eb6dabfbc9db8d022d9f039bf9a1fa4b27210b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 31/31] fix: CommandInvocationWithIOVars selects operands and
 options by the recorded access

---
 .../datatypes/CommandInvocationWithIOVars.py  | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 96cba73..3317055 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -1,9 +1,8 @@
 from copy import deepcopy
 from typing import List, Union, Optional, Dict
 
-from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType, FileNameOrStdDescriptor
-from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO, FileNameOrStdDescriptorWithIOInfo, FileNameWithIOInfo, \
-    StdDescriptorWithIOInfo
+from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
+from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
 from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output, AccessKind
 from pash_annotations.annotation_generation.datatypes.Inputs import Inputs, InputsEnum
 from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar, IOVar
@@ -204,30 +203,23 @@ class CommandInvocationWithIOVars:
 
 
     # for test cases:
-    def get_operands_with_config_input(self) -> List[Union[ArgStringType, FileNameOrStdDescriptorWithIOInfo]]:
+    def get_operands_with_config_input(self) -> List[Union[ArgStringType, IOVar]]:
         return [x for x in self.operand_list if
-                isinstance(x, ArgStringType) or
-                ((isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_config_input())]
+                not isinstance(x, int) or self.access_map[x].is_config_input()]
 
-    def get_operands_with_stream_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_input()]
+    def get_operands_with_stream_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_stream_input()]
 
-    def get_operands_with_other_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_input()]
+    def get_operands_with_other_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_other_input()]
 
-    def get_operands_with_stream_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_output()]
+    def get_operands_with_stream_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_stream_output()]
 
-    def get_operands_with_other_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_output()]
+    def get_operands_with_other_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_other_output()]
 
-    def get_options_with_other_output(self) -> List[OptionWithIO]:
-        only_options: List[OptionWithIO] = [x for x in self.flag_option_list if isinstance(x, OptionWithIO)]
+    def get_options_with_other_output(self) -> List[OptionWithIOVar]:
+        only_options: List[OptionWithIOVar] = [x for x in self.flag_option_list if isinstance(x, OptionWithIOVar)]
         return [x for x in only_options if
-                ((isinstance(x.option_arg, FileNameWithIOInfo) or isinstance(x.option_arg, StdDescriptorWithIOInfo)))
-                and x.option_arg.access.is_other_output()]
+                isinstance(x.option_arg, int) and self.access_map[x.option_arg].is_other_output()]
-- 
2.43.0

