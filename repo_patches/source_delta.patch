From c0a666bd151473f83d030a80efd20528950f0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 01/22] fix: from_csv keeps the order of events with equal
 timestamps

---
 pipit/trace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..a2c78da 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -91,7 +91,12 @@ class Trace:
 
         # sort the dataframe by Timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From 8432f564908f61d496b4a4438415f0585ee67a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 02/22] fix: Projections reader keeps the order of events with
 equal timestamps

---
 pipit/readers/projections_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..dbaf5d5 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
-- 
2.43.0


From bab25f85e85db28427be7696abef3ff415a76fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 03/22] fix: OTF2 reader keeps the order of events with equal
 timestamps

---
 pipit/readers/otf2_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..610a2dc 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
-- 
2.43.0


From 2a059d7c17a64b92a134689c1e97cb38ccf79ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 04/22] fix: Nsight reader keeps the order of events with equal
 timestamps

---
 pipit/readers/nsight_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..6973265 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -72,7 +72,9 @@ class NsightReader:
         # Tidy Dataframe
         self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        self.df.sort_values(
+            by="Timestamp (ns)", ascending=True, inplace=True, kind="stable"
+        )
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From ab1937d4c880fd7b4d0799aafdd89c129e0877f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 05/22] fix: idle_time no longer extends the caller's (or
 default) list of idle functions

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a2c78da..0c40126 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -623,7 +623,7 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            idle_functions = idle_functions + ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From fd733df7c6db5a5583359bba353f27e79f1c5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 06/22] fix: load_imbalance works again (select the metric's
 series, list the functions)

---
 pipit/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 0c40126..b36a599 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -574,7 +574,7 @@ class Trace:
         num_ranks = len(set(self.events["Process"]))
         num_display = num_ranks if num_processes > num_ranks else num_processes
 
-        flat_profile = self.flat_profile(metrics=metric, per_process=True)
+        flat_profile = self.flat_profile(metrics=metric, per_process=True)[metric]
 
         imbalance_dict = dict()
 
@@ -597,7 +597,7 @@ class Trace:
             imbalance_dict[imb_ranks].append(list(top_n.index))
 
         imbalance_df = pd.DataFrame(imbalance_dict)
-        imbalance_df.index = functions
+        imbalance_df.index = list(functions)
         imbalance_df.sort_values(by=mean_metric, axis=0, inplace=True, ascending=False)
 
         return imbalance_df
-- 
2.43.0


From c48cbc148e2745c42bee0b4c68d6bec8adb8ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 07/22] fix: flat_profile accepts a list of columns to group
 by, as documented

---
 pipit/trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index b36a599..c5d27d3 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -530,6 +530,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            [groupby_column] if not isinstance(groupby_column, list) else groupby_column
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -545,13 +548,13 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby(groupby_columns + ["Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby(groupby_columns + ["Process"], observed=True)[metrics]
                 .sum()
                 .groupby(groupby_column)
                 .mean()
-- 
2.43.0


From 0dfd751b7d092a14e71fe07fbec0d101b30ca56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 08/22] fix: call paths of functions whose names contain '->'
 are no longer confused

---
 pipit/util/cct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..b817dbe 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -45,7 +45,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth, callpath = 0, ()
 
         """
         Iterating over lists instead of
@@ -70,7 +70,7 @@ def create_cct(events):
             if evt_type == "Enter":
                 # add the function to the stack and get the call path
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
+                callpath = tuple(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
-- 
2.43.0


From a30a4db6d6b28b64ec13c296343dc98b8f3e14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 09/22] fix: times and event ids of Projections user notes are
 numbers

---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index dbaf5d5..6393755 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -421,7 +421,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -437,9 +437,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From 5c526d4dab99438d7a1f1ac8f4af259eb8c49344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 10/22] fix: Projections END_USER_EVENT_PAIR records no longer
 raise

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 6393755..4330d26 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -770,7 +770,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 342f918d3e5a0b8f4830110c9859b6f1e169b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 11/22] fix: Projections multicast creations list their
 destinations and keep their fields

---
 pipit/readers/projections_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4330d26..8ec720c 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -518,7 +518,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -537,7 +537,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From 7496fd17ed1085d364c3c8c2c3fe513baa2ae861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 12/22] fix: closing Computation Leave of a truncated
 Projections log is at its last time

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 8ec720c..ce87f06 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -796,7 +796,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+                time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From bc636864018a4fa624bf6e976257e5c7fd3bfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 13/22] fix: blank lines in Projections sts and log files are
 skipped

---
 pipit/readers/projections_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index ce87f06..2928980 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -136,6 +136,10 @@ class STSReader:
         for line in self.sts_file:
             line_arr = line.split()
 
+            # nothing to read on a blank line
+            if len(line_arr) == 0:
+                continue
+
             # Note: I'm disregarding TOTAL_STATS and TOTAL_EVENTS, because
             #   projections reader disregards them
 
@@ -359,7 +363,7 @@ class ProjectionsReader:
             for line in log_file:
                 line_arr = line.split()
 
-                if not line_arr[0].isnumeric():
+                if len(line_arr) == 0 or not line_arr[0].isnumeric():
                     pass
 
                 elif int(line_arr[0]) == ProjectionsConstants.BEGIN_IDLE:
-- 
2.43.0


From 38eb9533e7821cd213bdceefa393cf6b1583e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 14/22] fix: HPCToolkit string pointers count bytes, not
 characters

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..a1d4083 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -276,7 +276,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(self.common_strings[i].encode("UTF-8")) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
-- 
2.43.0


From 7907dd007bada8575fcd613a8b36dfa694113620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 15/22] fix: HPCToolkit strings with multi-byte characters are
 decoded whole

---
 pipit/readers/hpctoolkit_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a1d4083..50e32d6 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -338,13 +338,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From e2fe6f56ed91bd424fafb4be5ae893e4b8cc6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 16/22] fix: HPCToolkit source lines above 65535 are no longer
 truncated

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 50e32d6..d67f952 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From b1d23a366d43be7bc46339516e52d3afc0b4df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 17/22] fix: anonymous functions in HPCToolkit databases no
 longer raise

---
 pipit/readers/hpctoolkit_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index d67f952..54a0b82 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -146,7 +146,10 @@ class MetaReader:
             # loop construct
             function_string = "loop"
             loop_type = True
-        elif function_index is not None:
+        elif (
+            function_index is not None
+            and self.functions_list[function_index]["string_index"] is not None
+        ):
             # The function map
             function = self.functions_list[function_index]
             # current_function_map = {"string_index": function_name_index, \
-- 
2.43.0


From 4de3ffe5e7ba5545ab7121a47aede9942aac527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 18/22] fix: HPCToolkit profiles without a NODE identifier no
 longer raise

---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 54a0b82..c994300 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -972,8 +972,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From e2ecad9836eaeea578c439ac29d62bfc09a8f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 19/22] fix: all OTF2 metric classes and metric ids above 9 are
 read

---
 pipit/readers/otf2_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 610a2dc..b93c8f8 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -209,11 +209,16 @@ class OTF2Reader:
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
+            # members of all metric classes
+            metric_members = [
+                member for class_members in metric_members for member in class_members
+            ]
 
             # ids of metric members
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(
+                    lambda metric_member: int(metric_member.split()[-1]), metric_members
+                )
             )
 
             # names of metrics
-- 
2.43.0


From f3348080ec010514d01687175b6f90f6102938c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 20/22] fix: OTF2 metric values go to the event of their own
 location

---
 pipit/readers/otf2_reader.py | 39 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b93c8f8..936f8ca 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -234,9 +234,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # time and values of the metrics most recently
+            # read on each location
+            prev_metrics = {}
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -259,25 +259,26 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
-                        # store the metrics and their timestamp
-                        prev_metric_time = event.time
+                        # store the metrics and their timestamp until
+                        # the event that they are coupled with is read
+                        time, values = prev_metrics.get(loc._ref, (None, {}))
+                        if time != event.time:
+                            values = {}
+                        values.update(zip(metrics, metric_values))
+                        prev_metrics[loc._ref] = (event.time, values)
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
-                        # has the same timestamp
-                        if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
-
-                        # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        # has the same location and timestamp
+                        time, values = prev_metrics.pop(loc._ref, (None, {}))
+                        for metric in metric_names:
+                            # if the event is not paired with the metric,
+                            # then add a placeholder to the metric's list
+                            metrics_dict[metric].append(
+                                values.get(metric, float("nan"))
+                                if time == event.time
+                                else float("nan")
+                            )
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From 902152304bb9307ab3adb836e9b5ceeee9d02959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 21/22] fix: CPU start time and ids of Projections processing
 of non-array chares

---
 pipit/readers/projections_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 2928980..b9e682f 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -554,6 +554,9 @@ class ProjectionsReader:
                     msglen = int(line_arr[6])
                     recv_time = int(line_arr[7])
                     dimensions = sts_reader.get_dimension(entry)
+                    if dimensions < 0:
+                        # not a chare array: all four id fields are logged
+                        dimensions = 4
                     id = []
                     for i in range(8, 8 + dimensions):
                         id.append(int(line_arr[i]))
-- 
2.43.0


From 29f5e70baf923e80953491bdc9b5c2e91fc2703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 22/22] fix: HPCToolkit host ids stay exact when some profiles
 have none

---
 pipit/readers/hpctoolkit_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index c994300..f941859 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -1350,6 +1350,10 @@ class HPCToolkitReader:
 
     def read(self) -> pipit.trace.Trace:
         trace_df = pd.DataFrame(self.trace_reader.data)
+
+        # host ids are 64-bit numbers: keep them exact if some are missing
+        trace_df["Host"] = pd.Series(self.trace_reader.data["Host"], dtype="object")
+
         # Need to sort df by timestamp then index
         # (since many events occur at the same timestamp)
 
-- 
2.43.0

