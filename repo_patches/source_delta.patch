From e45be3d7ae96d54e9d5ae3f9159dcfab20b306af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 01/71] fix: parallel filter: keep row order and node objects,
 report failing workers

Partial frames were concatenated in the order in which workers happened to
deliver them, their nodes were copies, and a worker that raised or died left
the caller waiting forever.
---
 hatchet/graphframe.py | 85 ++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..a7f93bf 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -40,12 +40,20 @@ except ImportError:
     raise
 
 
-def parallel_apply(filter_function, dataframe, queue):
+def parallel_apply(filter_function, dataframe, connection):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    dataframe and sends the outcome (whether each row was selected, or the
+    exception that was raised) back over a multiprocessing connection."""
+    try:
+        outcome = dataframe.apply(filter_function, axis=1)
+    except Exception as e:
+        outcome = e
+    try:
+        connection.send(outcome)
+    except Exception:
+        # the outcome itself cannot be pickled
+        connection.send(RuntimeError(repr(outcome)))
+    connection.close()
 
 
 class GraphFrame:
@@ -468,35 +476,54 @@ class GraphFrame:
 
         if callable(filter_obj):
             # applying pandas filter using the callable function
+            # a worker needs at least one row to work on
+            num_procs = min(num_procs, len(dataframe_copy))
             if num_procs > 1:
                 # perform filter in parallel (default)
-                queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                connections = []
+                selected_rows = []
                 subframes = np.array_split(dataframe_copy, num_procs)
 
-                # Manually create a number of processes equal to the number of
-                # logical cpus available
-                for pid in range(num_procs):
-                    process = mp.Process(
-                        target=parallel_apply,
-                        args=(filter_obj, subframes[pid], queue),
-                    )
-                    process.start()
-                    processes.append(process)
-
-                # Stores filtered subframes in a list: 'returned_frames', for
-                # pandas concatenation. This intermediary list is used because
-                # pandas concat is faster when called only once on a list of
-                # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
-                for pid in range(num_procs):
-                    returned_frames.append(queue.get())
-
-                for proc in processes:
-                    proc.join()
-
-                filtered_df = pd.concat(returned_frames)
+                try:
+                    # Manually create a number of processes equal to the number of
+                    # logical cpus available
+                    for pid in range(num_procs):
+                        # Every worker has its own pipe, and the worker is the only
+                        # one to hold its sending end. So, the parent notices if
+                        # the worker dies before it has sent its result.
+                        receiver, sender = mp.Pipe(duplex=False)
+                        connections.append(receiver)
+                        process = mp.Process(
+                            target=parallel_apply,
+                            args=(filter_obj, subframes[pid], sender),
+                        )
+                        process.start()
+                        processes.append(process)
+                        sender.close()
+
+                    # Collect which rows were selected, in the order of the rows.
+                    for receiver in connections:
+                        try:
+                            outcome = receiver.recv()
+                        except EOFError:
+                            raise RuntimeError(
+                                "A worker process of a parallel filter died unexpectedly."
+                            )
+                        if isinstance(outcome, Exception):
+                            raise outcome
+                        selected_rows.append(outcome)
+                except BaseException:
+                    for process in processes:
+                        process.terminate()
+                    raise
+                finally:
+                    for receiver in connections:
+                        receiver.close()
+                    for process in processes:
+                        process.join()
+
+                filtered_df = dataframe_copy[pd.concat(selected_rows)]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From b7314550ca3e016877245f38ce21391981d551e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 02/71] fix: squash: do not reset the index of the operand
 while working

An error or interrupt in the middle of squash left the GraphFrame without its
index, and other threads saw it without one.
---
 hatchet/graphframe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a7f93bf..5676a36 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -580,10 +580,10 @@ class GraphFrame:
             update_inc_cols (boolean, optional): if True, update inclusive columns.
         """
         index_names = self.dataframe.index.names
-        self.dataframe.reset_index(inplace=True)
+        df = self.dataframe.reset_index()
 
         # create new nodes for each unique node in the old dataframe
-        old_to_new = {n: n.copy() for n in set(self.dataframe["node"])}
+        old_to_new = {n: n.copy() for n in set(df["node"])}
         for i in old_to_new:
             old_to_new[i]._hatchet_nid = i._hatchet_nid
 
@@ -636,7 +636,6 @@ class GraphFrame:
         graph.enumerate_traverse()
 
         # reindex new dataframe with new nodes
-        df = self.dataframe.copy()
         df["node"] = df["node"].apply(lambda x: old_to_new[x])
 
         # at this point, the graph is potentially invalid, as some nodes
@@ -644,7 +643,6 @@ class GraphFrame:
         merges = graph.normalize()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
 
-        self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
         # create dict that stores aggregation function for each column
         agg_dict = {}
-- 
2.43.0


From 425ffdba2d35ec497abd93011ddb7783bcc8c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 03/71] fix: drop_index_levels: keep the index if the
 aggregation function raises

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 5676a36..8a76371 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -440,8 +440,8 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        df = self.dataframe.reset_index(level="node")
+        agg_df = df.groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
-- 
2.43.0


From 37b4a804194d0b66163ebf027e7624b23ebd7cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 04/71] fix: arithmetic between graphframes sharing a graph
 modified its operands

For gf - gf.copy() (or gf + gf) unify has nothing to do, and the result was
written into columns shared with the operands by the shallow copy.
---
 hatchet/graphframe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8a76371..60f8a26 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1270,7 +1270,11 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        # self's columns may be shared with other graphframes (see copy), so
+        # update a copy of them
+        dataframe = self.dataframe.copy()
+        dataframe.update(op(other.dataframe[all_metrics]))
+        self.dataframe = dataframe
 
         return self
 
-- 
2.43.0


From 73274268bdd35b249515a4b36a8ae032c2682a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 05/71] fix: graphframes shared metric lists and metadata with
 one another

The results of filter, squash and groupby_aggregate used the lists and the
metadata dictionary of their operand, and all graphframes without metadata
shared a single dictionary.
---
 hatchet/graphframe.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 60f8a26..d27b3c8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -68,7 +68,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -99,7 +99,7 @@ class GraphFrame:
         self.exc_metrics = [] if exc_metrics is None else exc_metrics
         self.inc_metrics = [] if inc_metrics is None else inc_metrics
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else metadata
         self.query_engine = QueryEngine()
 
     @staticmethod
@@ -561,10 +561,10 @@ class GraphFrame:
         filtered_df.set_index(index_names, inplace=True)
 
         filtered_gf = GraphFrame(self.graph, filtered_df)
-        filtered_gf.exc_metrics = self.exc_metrics
-        filtered_gf.inc_metrics = self.inc_metrics
+        filtered_gf.exc_metrics = copy.copy(self.exc_metrics)
+        filtered_gf.inc_metrics = copy.copy(self.inc_metrics)
         filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = self.metadata
+        filtered_gf.metadata = copy.copy(self.metadata)
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
@@ -664,10 +664,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             agg_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         if update_inc_cols:
             new_gf.update_inclusive_columns()
@@ -1496,10 +1496,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             tmp_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         new_gf.drop_index_levels()
         return new_gf
-- 
2.43.0


From b54fe4be21407e8d3619e842a992f1926f0cbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 06/71] fix: from_timemory: report I/O errors and return data
 read from timemory

---
 hatchet/graphframe.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d27b3c8..43cab21 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -301,15 +301,14 @@ class GraphFrame:
         from .readers.timemory_reader import TimemoryReader
 
         if input is not None:
-            try:
-                return TimemoryReader(input, select, **_kwargs).read()
-            except IOError:
-                pass
+            return TimemoryReader(input, select, **_kwargs).read()
         else:
             try:
                 import timemory
 
-                TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
+                return TimemoryReader(
+                    timemory.get(hierarchy=True), select, **_kwargs
+                ).read()
             except ImportError:
                 print(
                     "Error! timemory could not be imported. Provide filename, file stream, or dict."
-- 
2.43.0


From 33a533d3bc5b8100cd44097aa3841c0fd6bc3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 07/71] fix: HPCToolkit reader: reject truncated metric files

The values that could be read were repeated to fill the missing part, or the
metrics of the rank silently became 0.
---
 hatchet/readers/hpctoolkit_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..1d093bc 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -71,6 +71,12 @@ def read_metricdb_file(args):
             metricdb, dtype=np.dtype(">f8"), count=num_nodes * num_metrics
         )
 
+    if arr1d.size != num_nodes * num_metrics:
+        raise ValueError(
+            "HPCToolkit metric file '%s' is truncated: expected %d values, found %d"
+            % (filename, num_nodes * num_metrics, arr1d.size)
+        )
+
     arr = np.frombuffer(shared_metrics).reshape(shape)
 
     # copy the data in the right place in the larger 2D array of metrics
-- 
2.43.0


From 161a6b1ca2a75b97a996a5613fb173a066cd7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 08/71] fix: TAU, timemory and HPCToolkit readers: do not
 depend on directory listing order

The order of the columns and the default metric followed the order in which the
file system lists the files.
---
 hatchet/readers/hpctoolkit_reader.py | 2 +-
 hatchet/readers/tau_reader.py        | 2 ++
 hatchet/readers/timemory_reader.py   | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index 1d093bc..c17ce9d 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -113,7 +113,7 @@ class HPCToolkitReader:
 
         # For a parallel run, there should be one metric-db file per MPI
         # process
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
+        metricdb_files = sorted(glob.glob(self.dir_name + "/*.metric-db"))
         self.num_metricdb_files = len(metricdb_files)
 
         # We need to know how many threads per rank there are. This counts the
diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..a558c42 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -240,6 +240,8 @@ class TAUReader:
         # files -> returns filenames in a directory, list
         profile_filenames = []
         for dirpath, dirnames, files in os.walk(self.dirname):
+            # visit the directories of the metrics in the same order everywhere
+            dirnames.sort()
             profiles_in_dir = glob.glob(dirpath + "/profile.*")
             if profiles_in_dir:
                 # sort input files in each directory in the same order
diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..766bccb 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -572,7 +572,7 @@ class TimemoryReader:
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
         elif os.path.isdir(self.input):
-            tree_files = glob.glob(self.input + "/*.tree.json")
+            tree_files = sorted(glob.glob(self.input + "/*.tree.json"))
             for file in tree_files:
                 # read all files that end with .tree.json.
                 with open(file, "r") as f:
-- 
2.43.0


From cb4437b5e87a4157c351c4f26d321762f45474ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 09/71] fix: SpotDB reader: metric lists and default metric
 depended on the hash seed

---
 hatchet/readers/spotdb_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..2aa0528 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -45,7 +45,7 @@ class SpotDatasetReader:
         self.metadata = metadata
         self.df_data = []
         self.roots = {}
-        self.metric_columns = set()
+        self.metric_columns = []
 
         self.timer = Timer()
 
@@ -77,7 +77,8 @@ class SpotDatasetReader:
                     metrics[colm] = int(v)
                 else:
                     metrics[colm] = v
-                self.metric_columns.add(colm)
+                if colm not in self.metric_columns:
+                    self.metric_columns.append(colm)
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
-- 
2.43.0


From b716a5fa63ebc4d92719d1e209388be9065e0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 10/71] fix: Caliper reader: names of unlabelled nodes depended
 on earlier reads

---
 hatchet/readers/caliper_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..7cc2654 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -20,9 +20,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
-
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
 
@@ -143,7 +140,7 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        unknown_label_counter = 0
         order = -1
 
         # find nodes in the nodes section that represent the path hierarchy
-- 
2.43.0


From 3aa2221926f955149875818220ed92b7b6006863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 11/71] fix: Caliper reader: nodes had no parents

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 7cc2654..3da4d94 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
+                    hnode.add_parent(parent_hnode)
 
                     node_dict = {
                         self.nid_col_name: idx,
-- 
2.43.0


From eb5c796fba57c09f22384fddc0ca3004b21532dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 12/71] fix: Caliper reader: check the exit status of
 cali-query

---
 hatchet/readers/caliper_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3da4d94..c43b0b1 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import io
 import json
 import sys
 import re
@@ -62,7 +63,10 @@ class CaliperReader:
                 [cali_query, "-q", self.query, self.filename_or_stream],
                 stdout=subprocess.PIPE,
             )
-            self.filename_or_stream = cali_json.stdout
+            cali_output, _ = cali_json.communicate()
+            if cali_json.returncode != 0:
+                raise subprocess.CalledProcessError(cali_json.returncode, cali_query)
+            self.filename_or_stream = io.BytesIO(cali_output)
 
         # if filename_or_stream is a str, then open the file, otherwise
         # directly load the file-like object
-- 
2.43.0


From cc89859317cfac4da5df3f1598ee42f6ff2ea0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 13/71] fix: gprof reader: first caller was added as parent
 twice

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 5beab6021a6c83c5393406117c0b1074a6263f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 14/71] fix: literal reader: link nodes with several parents by
 their id

A node that occurs several times got its first parent only, was looked up by its
frame, which other nodes may have too, and roots without an id got that of the
previous root.
---
 hatchet/readers/literal_reader.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..3710687 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -67,7 +67,7 @@ class LiteralReader:
         self.graph_dict = graph_dict
 
     def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
+        self, nid_to_node_dict, node_dicts, child_dict, hparent, seen_nids
     ):
         """Create node_dict for one node and then call the function
         recursively on all children.
@@ -94,32 +94,32 @@ class LiteralReader:
             )
 
             node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
-
             if hnid != -1:
+                nid_to_node_dict[hnid] = hnode
                 seen_nids.append(hnid)
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            hnode = nid_to_node_dict.get(hnid)
+            hnode.add_parent(hparent)
 
         hparent.add_child(hnode)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
                 self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
+                    nid_to_node_dict, node_dicts, child, hnode, seen_nids
                 )
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
+        nid_to_node_dict = {}
         frame = None
         seen_nids = []
-        hnid = -1
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
+            hnid = -1
             if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
                 hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
                 seen_nids.append(hnid)
@@ -137,13 +137,14 @@ class LiteralReader:
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
+            if hnid != -1:
+                nid_to_node_dict[hnid] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
                 for child in self.graph_dict[i]["children"]:
                     self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
+                        nid_to_node_dict, node_dicts, child, graph_root, seen_nids
                     )
 
         graph = Graph(list_roots)
-- 
2.43.0


From 83debd562527cc9adee36c7e518e5ad12f7b4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 15/71] fix: HDF5 checkpoints: restore graphs with several rows
 or no row per node

Edges were looked up by position in the list of all rows, so any GraphFrame with
a rank or thread index, and any unsquashed filter result, was restored with a
wrong graph or not at all. The order of explicitly ordered nodes was lost.
---
 hatchet/readers/dataframe_reader.py | 26 +++++++++++++++-----------
 hatchet/writers/dataframe_writer.py | 24 ++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..a53968d 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -45,15 +45,13 @@ def _get_parents_and_children(df):
     return rel_dict
 
 
-def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
-    for i in range(len(df)):
-        node = _get_node_from_df_iloc(df, i)
-        if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
-        if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
-    roots = [node for node in node_list if len(node.parents) == 0]
+def _reconstruct_graph(rel_dict):
+    # there can be several rows per node, and ids can have gaps
+    nodes = {node._hatchet_nid: node for node in rel_dict}
+    for node, rels in rel_dict.items():
+        node.children = [nodes[nid] for nid in rels["children"]]
+        node.parents = [nodes[nid] for nid in rels["parents"]]
+    roots = [node for node in sorted(nodes.values()) if len(node.parents) == 0]
     return Graph(roots)
 
 
@@ -70,8 +68,14 @@ class DataframeReader(ABC):
     def read(self, **kwargs):
         df = self._read_dataframe_from_file(**kwargs)
         rel_dict = _get_parents_and_children(df)
-        graph = _reconstruct_graph(df, rel_dict)
-        graph.enumerate_traverse()
+        # nodes of the graph which have no rows, if there are any
+        if "nodes_without_rows" in df.columns:
+            rel_dict.update(df.iloc[0, df.columns.get_loc("nodes_without_rows")])
+            df.drop(columns=["nodes_without_rows"], inplace=True)
+        graph = _reconstruct_graph(rel_dict)
+        if "node_ordering" in df.columns:
+            graph.node_ordering = True
+            df.drop(columns=["node_ordering"], inplace=True)
         exc_metrics = df.iloc[0, df.columns.get_loc("exc_metrics")]
         inc_metrics = df.iloc[0, df.columns.get_loc("inc_metrics")]
         default_metric = df.iloc[0, df.columns.get_loc("default_metric")]
diff --git a/hatchet/writers/dataframe_writer.py b/hatchet/writers/dataframe_writer.py
index 3d71bff..4f8fa1d 100644
--- a/hatchet/writers/dataframe_writer.py
+++ b/hatchet/writers/dataframe_writer.py
@@ -48,6 +48,20 @@ def _fill_children_and_parents(dump_df):
     return dump_df
 
 
+def _detach_nodes(nodes):
+    """Replace the links of nodes by a dictionary of the ids of their neighbors."""
+    rel_dict = {}
+    for node in nodes:
+        rel_dict[node] = {
+            "parents": [p._hatchet_nid for p in node.parents],
+            "children": [c._hatchet_nid for c in node.children],
+        }
+    for node in nodes:
+        node.children = []
+        node.parents = []
+    return rel_dict
+
+
 class DataframeWriter(ABC):
     def __init__(self, filename):
         self.filename = filename
@@ -58,7 +72,17 @@ class DataframeWriter(ABC):
 
     def write(self, gf, **kwargs):
         gf_cpy = gf.deepcopy()
+        nodes_with_rows = set(gf_cpy.dataframe.index.get_level_values("node"))
+        other_nodes = [n for n in gf_cpy.graph.traverse() if n not in nodes_with_rows]
         dump_df = _fill_children_and_parents(gf_cpy.dataframe)
+        if other_nodes:
+            # save the nodes which have no rows, e.g. after filter(squash=False)
+            dump_df["nodes_without_rows"] = None
+            dump_df.iat[
+                0, dump_df.columns.get_loc("nodes_without_rows")
+            ] = _detach_nodes(other_nodes)
+        if gf_cpy.graph.node_ordering:
+            dump_df["node_ordering"] = True
         dump_df["exc_metrics"] = None
         dump_df.iat[0, dump_df.columns.get_loc("exc_metrics")] = gf_cpy.exc_metrics
         dump_df["inc_metrics"] = None
-- 
2.43.0


From 2f91f659a485226d70ce26c7f179e86b1ead4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 16/71] fix: JSON reader: nodes below several roots were
 duplicated, depths were missing

---
 hatchet/readers/json_reader.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..2f4f546 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -29,30 +29,32 @@ class JsonReader:
 
     def read(self):
         roots = []
+        # a node which is reachable from several roots is part of several specs
+        nodes = {}
+        specs = {}
         for graph_spec in self.spec_dict["graph"]:
             # turn frames into nodes
             for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+                if nid not in nodes:
+                    nodes[nid] = Node(Frame(value["data"]), hnid=int(nid))
+                    specs[nid] = value
 
-            # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
-                    child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+        # connect nodes
+        for nid, value in specs.items():
+            for child in value["children"]:
+                nodes[nid].add_child(nodes[str(child)])
+                nodes[str(child)].add_parent(nodes[nid])
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+        for node in nodes.values():
+            if len(node.parents) == 0:
+                roots.append(node)
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From eebb86d752eb87098c3afa8bdae78ed592c7c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 17/71] fix: Profiler: the third profile within a second
 overwrote the second one

---
 hatchet/util/profiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..d295fa1 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -109,5 +109,11 @@ class Profiler:
         else:
             if os.path.exists(filename):
                 now = datetime.now().strftime("%H%M%S")
-                filename = "{}_{}.pstats".format(filename, now)
+                new_filename = "{}_{}.pstats".format(filename, now)
+                # several files can be written within a second
+                count = 1
+                while os.path.exists(new_filename):
+                    new_filename = "{}_{}_{}.pstats".format(filename, now, count)
+                    count += 1
+                filename = new_filename
             sts.dump_stats(filename)
-- 
2.43.0


From 62e6f7078e23174fd1eac213433ff0bd6af059a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 18/71] fix: Timer: starting a phase again discarded its
 earlier time, and a phase whose body raised stayed open

---
 hatchet/util/timer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hatchet/util/timer.py b/hatchet/util/timer.py
index 03960a3..f839ebd 100644
--- a/hatchet/util/timer.py
+++ b/hatchet/util/timer.py
@@ -23,7 +23,7 @@ class Timer(object):
 
         if self._phase:
             delta = now - self._start_time
-            self._times[self._phase] = delta
+            self._add_time(self._phase, delta)
 
         self._phase = phase
         self._start_time = now
@@ -34,14 +34,16 @@ class Timer(object):
 
         now = datetime.now()
         delta = now - self._start_time
-        if self._times.get(self._phase):
-            self._times[self._phase] = self._times.get(self._phase) + delta
-        else:
-            self._times[self._phase] = delta
+        self._add_time(self._phase, delta)
 
         self._phase = None
         self._start_time = None
 
+    def _add_time(self, phase, delta):
+        if phase in self._times:
+            delta = self._times[phase] + delta
+        self._times[phase] = delta
+
     def __str__(self):
         out = StringIO()
         out.write("Times:\n")
@@ -52,5 +54,7 @@ class Timer(object):
     @contextmanager
     def phase(self, name):
         self.start_phase(name)
-        yield
-        self.end_phase()
+        try:
+            yield
+        finally:
+            self.end_phase()
-- 
2.43.0


From 3c53eb028eeda5c586791bef322a6ffea383e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 19/71] fix: QueryEngine: nested and concurrent queries
 overwrote each other's cache

---
 hatchet/query/engine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..66284c6 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -38,11 +38,13 @@ class QueryEngine:
             (list): A list representing the set of nodes from paths that match the query
         """
         if issubclass(type(query), Query):
-            self.reset_cache()
+            # This query has a cache of its own: predicates can apply queries
+            # themselves, and several threads can use the same engine.
+            engine = QueryEngine()
             matches = []
             visited = set()
             for root in sorted(graph.roots, key=traversal_order):
-                self._apply_impl(query, dframe, root, visited, matches)
+                engine._apply_impl(query, dframe, root, visited, matches)
             assert len(visited) == len(graph)
             matched_node_set = list(set().union(*matches))
             # return matches
-- 
2.43.0


From cedc980c815419bf992ac55ed82a3c2797cae191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 20/71] fix: traversal and merge order of siblings with equal
 frames depended on addresses

---
 hatchet/graph.py | 4 ++--
 hatchet/node.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..1f7dae2 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -99,11 +99,11 @@ class Graph:
             index = index_by("frame", node_list)
             for frame, children in index.items():
                 if len(children) > 1:
-                    min_id = min(children, key=id)
+                    min_id = min(children, key=node_traversal_order)
                     for child in children:
                         prev_min = merges.get(child, min_id)
                         # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
+                        curr_min = min([min_id, prev_min], key=node_traversal_order)
                         # Save the new merged_node to the merges dict
                         # so that the merge can happen later.
                         merges[child] = curr_min
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..21a5ff2 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -10,7 +10,7 @@ from .frame import Frame
 
 def traversal_order(node):
     """Deterministic key function for sorting nodes in traversals."""
-    return (node.frame, id(node))
+    return (node.frame, node._hatchet_nid)
 
 
 def node_traversal_order(node):
-- 
2.43.0


From c140dd40cc61e51d64d1e9fd1b78cff3e0dee5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 21/71] fix: order of metric lists depended on the hash seed

---
 hatchet/graphframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 43cab21..71980b8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -7,7 +7,7 @@ import copy
 import sys
 import traceback
 
-from collections import defaultdict
+from collections import OrderedDict, defaultdict
 
 import pandas as pd
 import numpy as np
@@ -899,7 +899,7 @@ class GraphFrame:
                 )
         # Add the newly created metrics to self.exc_metrics
         self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        self.exc_metrics = list(OrderedDict.fromkeys(self.exc_metrics))
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
@@ -932,7 +932,7 @@ class GraphFrame:
         self.inc_metrics = new_inc_metrics
 
         self.subgraph_sum(self.exc_metrics, self.inc_metrics)
-        self.inc_metrics = list(set(self.inc_metrics + old_inc_metrics))
+        self.inc_metrics = list(OrderedDict.fromkeys(self.inc_metrics + old_inc_metrics))
 
     def show_metric_columns(self):
         """Returns a list of dataframe column labels."""
-- 
2.43.0


From 92b67b5c6969b1d811591c164ff168cc9e0578fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 22/71] fix: parallel filter: a worker sends its outcome
 exactly once

A failure after the outcome had been sent made the worker send a second
message, which nobody receives.
---
 hatchet/graphframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 71980b8..1c33548 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -12,6 +12,7 @@ from collections import OrderedDict, defaultdict
 import pandas as pd
 import numpy as np
 import multiprocess as mp
+from multiprocess.reduction import ForkingPickler
 import json
 
 from .node import Node
@@ -49,10 +50,11 @@ def parallel_apply(filter_function, dataframe, connection):
     except Exception as e:
         outcome = e
     try:
-        connection.send(outcome)
+        message = ForkingPickler.dumps(outcome)
     except Exception:
         # the outcome itself cannot be pickled
-        connection.send(RuntimeError(repr(outcome)))
+        message = ForkingPickler.dumps(RuntimeError(repr(outcome)))
+    connection.send_bytes(message)
     connection.close()
 
 
-- 
2.43.0


From c8b185bb04e9799087c6ad798e737da7349cc1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 23/71] fix: HPCToolkit reader: a metric file vanishing while
 loading was left out silently

---
 hatchet/readers/hpctoolkit_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index c17ce9d..faee23e 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -114,6 +114,7 @@ class HPCToolkitReader:
         # For a parallel run, there should be one metric-db file per MPI
         # process
         metricdb_files = sorted(glob.glob(self.dir_name + "/*.metric-db"))
+        self.metricdb_files = metricdb_files
         self.num_metricdb_files = len(metricdb_files)
 
         # We need to know how many threads per rank there are. This counts the
@@ -182,8 +183,9 @@ class HPCToolkitReader:
         num_metricdb_files rows and num_metrics columns. Three additional columns
         store the node id, MPI process rank, and thread id (if applicable).
         """
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
-        metricdb_files.sort()
+        # the files found when the database was opened, one of which may have
+        # disappeared since
+        metricdb_files = self.metricdb_files
 
         # All the metric data per node and per process is read into the metrics
         # array below. The three additional columns are for storing the implicit
-- 
2.43.0


From 9dced228e31cb9d9dc784d9a28db054e934e08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 24/71] fix: comparing a node with another type raised
 AttributeError inside pandas

---
 hatchet/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index 21a5ff2..bf0469f 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -191,12 +191,18 @@ class Node:
         return self._hatchet_nid
 
     def __eq__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid == other._hatchet_nid
 
     def __lt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid < other._hatchet_nid
 
     def __gt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid > other._hatchet_nid
 
     def __str__(self):
-- 
2.43.0


From 8f69a2bde7c6e2471aa2757be3912738eb2a702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 25/71] fix: arithmetic dropped rows missing in the left
 operand if the operands share a graph

---
 hatchet/graphframe.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 1c33548..42405db 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -948,11 +948,16 @@ class GraphFrame:
 
         Update the graphs in the graphframe if they differ.
         """
-        if self.graph is other.graph:
+        same_graph = self.graph is other.graph
+        if same_graph and set(self.dataframe.index.get_level_values("node")) == set(
+            other.dataframe.index.get_level_values("node")
+        ):
             return
 
         node_map = {}
-        union_graph = self.graph.union(other.graph, node_map)
+        union_graph = self.graph
+        if not same_graph:
+            union_graph = self.graph.union(other.graph, node_map)
 
         self_index_names = self.dataframe.index.names
         other_index_names = other.dataframe.index.names
@@ -960,10 +965,13 @@ class GraphFrame:
         self.dataframe.reset_index(inplace=True)
         other.dataframe.reset_index(inplace=True)
 
-        self.dataframe["node"] = self.dataframe["node"].apply(lambda x: node_map[id(x)])
-        other.dataframe["node"] = other.dataframe["node"].apply(
-            lambda x: node_map[id(x)]
-        )
+        if not same_graph:
+            self.dataframe["node"] = self.dataframe["node"].apply(
+                lambda x: node_map[id(x)]
+            )
+            other.dataframe["node"] = other.dataframe["node"].apply(
+                lambda x: node_map[id(x)]
+            )
 
         # add missing rows to copy of self's dataframe in preparation for
         # operation
-- 
2.43.0


From d902023129bf4598b505b93bfb1d7ebfb9ae4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 26/71] fix: inclusive columns lost values below nodes without
 a row for a rank or thread

---
 hatchet/graphframe.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 42405db..7d6d970 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -769,7 +769,13 @@ class GraphFrame:
             function (callable): associative operator used to sum
                 elements, sum of an all-NA series is NaN (default: sum(min_count=1))
         """
-        if self.graph.is_tree():
+        # subtree_sum adds up the rows of each node's children, so it also needs
+        # every node to have a row for each of the other index labels.
+        index = self.dataframe.index
+        if self.graph.is_tree() and (
+            index.nlevels == 1
+            or len(index) == len(self.graph) * len(index.droplevel("node").unique())
+        ):
             self.subtree_sum(columns, out_columns, function)
             return
 
-- 
2.43.0


From e94baed735c3e2c300fc15f719563a0328ff19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 27/71] fix: exported literals and dicts shared frames and
 metric lists with the graphframe

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 7d6d970..f3f9b5b 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1215,7 +1215,7 @@ class GraphFrame:
                 node_name = node_name[0]
 
             node_dict["name"] = node_name
-            node_dict["frame"] = hnode.frame.attrs
+            node_dict["frame"] = copy.copy(hnode.frame.attrs)
             node_dict["metrics"] = metrics_to_dict(df_index)
             # node_dict["metrics"]["_hatchet_nid"] = int(self.dataframe["nid"][df_index])
             node_dict["metrics"]["_hatchet_nid"] = int(hnode._hatchet_nid)
@@ -1246,7 +1246,7 @@ class GraphFrame:
             formatted_graph_dict = {}
             for n in root.traverse():
                 formatted_graph_dict[n._hatchet_nid] = {
-                    "data": n.frame.attrs,
+                    "data": copy.copy(n.frame.attrs),
                     "children": [c._hatchet_nid for c in n.children],
                 }
             graphs.append(formatted_graph_dict)
@@ -1258,8 +1258,8 @@ class GraphFrame:
         ef["node"] = ef["node"].apply(lambda n: n._hatchet_nid)
         hatchet_dict["dataframe"] = ef.replace({np.nan: None}).to_dict("records")
 
-        hatchet_dict["inclusive_metrics"] = self.inc_metrics
-        hatchet_dict["exclusive_metrics"] = self.exc_metrics
+        hatchet_dict["inclusive_metrics"] = copy.copy(self.inc_metrics)
+        hatchet_dict["exclusive_metrics"] = copy.copy(self.exc_metrics)
 
         return hatchet_dict
 
-- 
2.43.0


From 19b1dce57483d2deea14e26952851fee233204c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 28/71] fix: Caliper JSON reader listed the removed node order
 column as a metric

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index c43b0b1..f1f7651 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -380,6 +380,7 @@ class CaliperReader:
             graph.node_ordering = True
             # we do not want to expose the "Node order" column to the user
             self.df_metrics = self.df_metrics.drop(columns="Node order")
+            self.metric_columns = [c for c in self.metric_columns if c != "Node order"]
         graph.enumerate_traverse()
 
         # merge the metrics and node dataframes on the idx column
-- 
2.43.0


From a21ca5fd8583e186f6e0d6dc068598f4860760c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 29/71] fix: GraphFrames of a Caliper timeseries listed their
 metrics repeatedly

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..347ab51 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,10 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
-- 
2.43.0


From 6579282cf2a39f0ae6a3aa08a0d67df9cc83e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 30/71] fix: GraphFrames of a Caliper timeseries shared one
 metadata dictionary

---
 hatchet/readers/caliper_native_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 347ab51..db930e1 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -4,9 +4,11 @@
 # SPDX-License-Identifier: MIT
 
 
+import copy
+import os
+
 import pandas as pd
 import numpy as np
-import os
 
 import caliperreader as cr
 
@@ -564,7 +566,7 @@ class CaliperNativeReader:
                     exc_metrics,
                     inc_metrics,
                     self.default_metric,
-                    metadata=parsed_metadata,
+                    metadata=copy.deepcopy(parsed_metadata),
                 )
             )
 
-- 
2.43.0


From 8a5af012321d749381c47c75003d51821f055ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 31/71] fix: groupby_aggregate kept listing metrics that were
 not aggregated

---
 hatchet/graphframe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index f3f9b5b..418b9b5 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1511,8 +1511,9 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             tmp_df,
-            copy.copy(self.exc_metrics),
-            copy.copy(self.inc_metrics),
+            # metrics that are not aggregated have no column any more
+            [m for m in self.exc_metrics if m in tmp_df.columns],
+            [m for m in self.inc_metrics if m in tmp_df.columns],
             self.default_metric,
             copy.copy(self.metadata),
         )
-- 
2.43.0


From f818a4fef2cce29ef27f516f963658baa50b74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 32/71] fix: cProfile reader merged functions of files with the
 same name

---
 hatchet/readers/cprofile_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..b19ba41 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -58,7 +58,7 @@ class CProfileReader:
         """
         u_fn_name = "{}:{}:{}".format(
             fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
+            fn_data[NameData.FILE],
             fn_data[NameData.LINE],
         )
         fn_hnode = self.name_to_hnode.get(u_fn_name)
-- 
2.43.0


From 6c72a0c3c176633ae6ef7813d8c0a75011ff68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 33/71] fix: TAU reader left out the metrics of directories it
 could not list

---
 hatchet/readers/tau_reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index a558c42..9cc3176 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -5,7 +5,6 @@
 
 import re
 import os
-import glob
 import pandas as pd
 import hatchet.graphframe
 from hatchet.node import Node
@@ -235,17 +234,23 @@ class TAUReader:
                     self.inc_metrics.append(metric_name + " (inc)")
             return columns
 
+        def _raise(error):
+            # os.walk() skips directories it cannot list unless told otherwise
+            raise error
+
         # dirpath -> returns path of a directory, string
         # dirnames -> returns directory names, list
         # files -> returns filenames in a directory, list
         profile_filenames = []
-        for dirpath, dirnames, files in os.walk(self.dirname):
+        for dirpath, dirnames, files in os.walk(self.dirname, onerror=_raise):
             # visit the directories of the metrics in the same order everywhere
             dirnames.sort()
-            profiles_in_dir = glob.glob(dirpath + "/profile.*")
+            profiles_in_dir = [f for f in files if f.startswith("profile.")]
             if profiles_in_dir:
                 # sort input files in each directory in the same order
-                profile_filenames.append(sorted(profiles_in_dir))
+                profile_filenames.append(
+                    [os.path.join(dirpath, f) for f in sorted(profiles_in_dir)]
+                )
 
         # Store all files in a list of tuples.
         # Each tuple stores all the metric files of a rank.
-- 
2.43.0


From 5f4aa16850d9a28c8280204ad34b93ff392f3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 34/71] fix: TAU reader combined values of different ranks when
 a metric lacks a profile

---
 hatchet/readers/tau_reader.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 9cc3176..03d0b23 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -5,6 +5,7 @@
 
 import re
 import os
+from itertools import zip_longest
 import pandas as pd
 import hatchet.graphframe
 from hatchet.node import Node
@@ -252,6 +253,21 @@ class TAUReader:
                     [os.path.join(dirpath, f) for f in sorted(profiles_in_dir)]
                 )
 
+        # Each metric has to be there for all ranks and threads, otherwise values of
+        # different ranks would be combined below.
+        for metric_filenames in profile_filenames:
+            for filename, first in zip_longest(metric_filenames, profile_filenames[0]):
+                if (
+                    filename is None
+                    or first is None
+                    or os.path.basename(filename) != os.path.basename(first)
+                ):
+                    raise ValueError(
+                        "Metric directories have different profiles: {}, {}".format(
+                            first, filename
+                        )
+                    )
+
         # Store all files in a list of tuples.
         # Each tuple stores all the metric files of a rank.
         # We process one rank at a time.
-- 
2.43.0


From 7ccfb73fdca1dc86cfb14cc245e17c8134fa6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 35/71] fix: timemory reader left out metrics when listing its
 directory fails part-way

---
 hatchet/readers/timemory_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 766bccb..1744fd9 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -6,7 +6,6 @@
 import json
 import pandas as pd
 import os
-import glob
 from hatchet.graphframe import GraphFrame
 from ..node import Node
 from ..graph import Graph
@@ -572,7 +571,12 @@ class TimemoryReader:
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
         elif os.path.isdir(self.input):
-            tree_files = sorted(glob.glob(self.input + "/*.tree.json"))
+            # unlike glob.glob(), os.listdir() does not hide errors
+            tree_files = [
+                os.path.join(self.input, f)
+                for f in sorted(os.listdir(self.input))
+                if f.endswith(".tree.json") and not f.startswith(".")
+            ]
             for file in tree_files:
                 # read all files that end with .tree.json.
                 with open(file, "r") as f:
-- 
2.43.0


From ea0e5e9a9e8d838d0e54077c7d42ff483f3f6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 36/71] fix: HPCToolkit reader left out ranks when listing its
 directory fails part-way

---
 hatchet/readers/hpctoolkit_reader.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index faee23e..d83524c 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -3,7 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
-import glob
+import fnmatch
 import struct
 import re
 import os
@@ -112,19 +112,22 @@ class HPCToolkitReader:
         self.callpath_profile = next(root.iter("SecCallPathProfileData"))
 
         # For a parallel run, there should be one metric-db file per MPI
-        # process
-        metricdb_files = sorted(glob.glob(self.dir_name + "/*.metric-db"))
+        # process. List them only once, and with os.listdir(), as glob.glob() hides
+        # errors.
+        metricdb_names = [
+            name
+            for name in sorted(os.listdir(self.dir_name))
+            if fnmatch.fnmatch(name, "[!.]*.metric-db")
+        ]
+        metricdb_files = [self.dir_name + "/" + name for name in metricdb_names]
         self.metricdb_files = metricdb_files
         self.num_metricdb_files = len(metricdb_files)
 
         # We need to know how many threads per rank there are. This counts the
         # number of thread 0 metric-db files (i.e., number of ranks), then
         # uses this as the divisor to the total number of metric-db files.
-        metricdb_numranks_files = glob.glob(self.dir_name + "/*-000-*.metric-db")
-        self.num_ranks = len(metricdb_numranks_files)
-        self.num_threads_per_rank = int(
-            self.num_metricdb_files / len(metricdb_numranks_files)
-        )
+        self.num_ranks = len(fnmatch.filter(metricdb_names, "*-000-*.metric-db"))
+        self.num_threads_per_rank = int(self.num_metricdb_files / self.num_ranks)
 
         self.num_cpu_threads_per_rank = self.count_cpu_threads_per_rank()
 
@@ -437,10 +440,9 @@ class HPCToolkitReader:
         return node_dict
 
     def count_cpu_threads_per_rank(self):
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
         cpu_thread_ids = set()
 
-        for filename in metricdb_files:
+        for filename in self.metricdb_files:
             thread = int(
                 re.search(
                     r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename
-- 
2.43.0


From 2b9df13d36d355b69478fff5ed76ed1f0cc4ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 37/71] fix: native Caliper reader added a second row of zeros
 for each root

---
 hatchet/readers/caliper_native_reader.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index db930e1..a12aa29 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -222,15 +222,8 @@ class CaliperNativeReader:
                 if not parent_callpath:
                     list_roots.append(child_node)
 
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
+                    # the caller registers the node; only skip an id, so that
+                    # ids of existing profiles stay as they are
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From 14032d12f8bea62199cc7bd332ec97c967e9fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 38/71] fix: squash of graphs with shared children could keep
 rows of nodes outside the graph

---
 hatchet/graph.py | 78 +++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 1f7dae2..14b39f6 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -89,50 +89,48 @@ class Graph:
             (dict): dictionary from nodes to their merge targets
 
         """
-        merges = {}  # old_node -> merged_node
-        inverted_merges = defaultdict(
-            lambda: []
-        )  # merged_node -> list of corresponding old_nodes
-        processed = []
+        target = {}  # node -> node it is merged into, possibly in several steps
+        members = {}  # final merge target -> all nodes merged into it
+
+        def _target_of(node):
+            while node in target:
+                node = target[node]
+            return node
 
         def _find_child_merges(node_list):
-            index = index_by("frame", node_list)
-            for frame, children in index.items():
-                if len(children) > 1:
-                    min_id = min(children, key=node_traversal_order)
-                    for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=node_traversal_order)
-                        # Save the new merged_node to the merges dict
-                        # so that the merge can happen later.
-                        merges[child] = curr_min
-                        # Update inverted_merges to be able to set node_list
-                        # to the right value.
-                        inverted_merges[curr_min].append(child)
-
-        _find_child_merges(self.roots)
+            """Merge nodes with the same frame. Return the targets that got
+            additional members."""
+            changed = []
+            for children in index_by("frame", node_list).values():
+                targets = []
+                for child in children:
+                    if _target_of(child) not in targets:
+                        targets.append(_target_of(child))
+                if len(targets) > 1:
+                    new = min(targets, key=node_traversal_order)
+                    members.setdefault(new, [new])
+                    for old in targets:
+                        if old is not new:
+                            target[old] = new
+                            members[new].extend(members.pop(old, [old]))
+                    changed.append(new)
+            return changed
+
+        changed = _find_child_merges(self.roots)
         for node in self.traverse():
-            if node in processed:
-                continue
-            nodes = None
-            # If node is going to be merged with other nodes,
-            # collect the set of those nodes' children. This is
-            # done to ensure that equivalent children of merged nodes
-            # also get merged.
-            if node in merges:
-                new_node = merges[node]
-                nodes = []
-                for node_to_merge in inverted_merges[new_node]:
-                    nodes.extend(node_to_merge.children)
-                processed.extend(inverted_merges[new_node])
-            # If node is not going to be merged, simply get the list of
-            # node's children.
-            else:
-                nodes = node.children
-                processed.append(node)
-            _find_child_merges(nodes)
+            changed.extend(_find_child_merges(node.children))
+        # Equivalent children of merged nodes also get merged. A node with
+        # several parents may be merged again after its children were.
+        while changed:
+            nodes = []
+            for node in members.get(_target_of(changed.pop()), []):
+                nodes.extend(node.children)
+            changed.extend(_find_child_merges(nodes))
 
+        merges = {}  # old_node -> merged_node
+        for new, old_nodes in members.items():
+            for old in old_nodes:
+                merges[old] = new
         return merges
 
     def merge_nodes(self, merges):
-- 
2.43.0


From 3b0ff9417681fb55a168431a881cc4f450dcc5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 39/71] fix: literal reader made two nodes of a root that is
 also below another root

---
 hatchet/readers/literal_reader.py | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 3710687..3d0b91b 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -122,23 +122,30 @@ class LiteralReader:
             hnid = -1
             if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
                 hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
-            graph_root = Node(frame, None, hnid=hnid)
 
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
+            # a root can also be a node below one of the earlier roots
+            graph_root = nid_to_node_dict.get(hnid)
+            if graph_root is None:
+                if hnid != -1:
+                    seen_nids.append(hnid)
+                frame = Frame(self.graph_dict[i]["frame"])
+                graph_root = Node(frame, None, hnid=hnid)
+
+                # depending on the node type, the name may not be in the frame
+                node_name = self.graph_dict[i]["frame"].get("name")
+                if not node_name:
+                    node_name = self.graph_dict[i]["name"]
+
+                node_dict = dict(
+                    {"node": graph_root, "name": node_name},
+                    **self.graph_dict[i]["metrics"],
+                )
+                node_dicts.append(node_dict)
 
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
-            )
-            node_dicts.append(node_dict)
+                if hnid != -1:
+                    nid_to_node_dict[hnid] = graph_root
 
             list_roots.append(graph_root)
-            if hnid != -1:
-                nid_to_node_dict[hnid] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
-- 
2.43.0


From 7dc15e31fd7941fdef27c25bba0601ec75ddbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:25 +0000
Subject: [PATCH 40/71] fix: inclusive columns counted shared descendants
 repeatedly with ranks or threads

---
 hatchet/graphframe.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 418b9b5..08ed83c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -780,6 +780,8 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # nodes below several parents are read after their own sums were stored
+        values = self.dataframe[columns].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -806,15 +808,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, out] = [
+                            function(values.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(values.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From a8df4bee989afcb0fa5925188ea809ef2d2b546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 41/71] fix: JSON reader turned metrics without any value into
 columns of objects

---
 hatchet/readers/json_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 2f4f546..31f2863 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -57,6 +57,14 @@ class JsonReader:
         dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
+        # metrics without any value would otherwise be columns of objects
+        metrics = (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        )
+        for metric in metrics:
+            if dataframe[metric].isna().all():
+                dataframe[metric] = dataframe[metric].astype(float)
+
         return hatchet.graphframe.GraphFrame(
             grph,
             dataframe,
-- 
2.43.0


From c5f9fd1635c65cc6147848abe8db6a61d9a13275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 42/71] fix: Profiler: concurrent dumps could overwrite one
 another

---
 hatchet/util/profiler.py | 44 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index d295fa1..93b7997 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -4,6 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 import cProfile
+import errno
 import traceback
 import sys
 import os
@@ -29,6 +30,19 @@ def print_incomptable_msg(stats_file):
     traceback.print_exc()
 
 
+def create_file(filename):
+    """
+    Function which creates an empty file, unless there is a file of that name.
+    """
+    try:
+        os.close(os.open(filename, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o666))
+    except OSError as e:
+        if e.errno == errno.EEXIST:
+            return False
+        raise
+    return True
+
+
 # class for profiling
 class Profiler:
     """
@@ -98,22 +112,22 @@ class Profiler:
                     print_incomptable_msg(stats_file)
                     raise
 
+        # the file is created right away so that no other profiler, also not in
+        # another thread or process, writes to it
+        now = datetime.now().strftime("%H%M%S")
         if filename == "":
-            if os.path.exists(self._output + ".pstats"):
-                now = datetime.now().strftime("%H%M%S")
+            filename = self._output + ".pstats"
+            if not create_file(filename):
                 self.write_to_file(
                     "{}_{}.pstats".format(self._output, now), add_pstats_files
                 )
-            else:
-                sts.dump_stats(self._output + ".pstats")
-        else:
-            if os.path.exists(filename):
-                now = datetime.now().strftime("%H%M%S")
-                new_filename = "{}_{}.pstats".format(filename, now)
-                # several files can be written within a second
-                count = 1
-                while os.path.exists(new_filename):
-                    new_filename = "{}_{}_{}.pstats".format(filename, now, count)
-                    count += 1
-                filename = new_filename
-            sts.dump_stats(filename)
+                return
+        elif not create_file(filename):
+            new_filename = "{}_{}.pstats".format(filename, now)
+            # several files can be written within a second
+            count = 1
+            while not create_file(new_filename):
+                new_filename = "{}_{}_{}.pstats".format(filename, now, count)
+                count += 1
+            filename = new_filename
+        sts.dump_stats(filename)
-- 
2.43.0


From 0a3a868966c4904d438e163d0c953bc8d84e1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 43/71] fix: HDF5 reader left files open that HDF5 failed to
 read

---
 hatchet/readers/hdf5_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/hdf5_reader.py b/hatchet/readers/hdf5_reader.py
index b9a4854..56d196e 100644
--- a/hatchet/readers/hdf5_reader.py
+++ b/hatchet/readers/hdf5_reader.py
@@ -21,5 +21,11 @@ class HDF5Reader(DataframeReader):
         df = None
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=Warning)
-            df = pd.read_hdf(self.filename, **kwargs)
+            if isinstance(self.filename, pd.HDFStore):
+                df = pd.read_hdf(self.filename, **kwargs)
+            else:
+                # pd.read_hdf() leaves files open if HDF5 fails to read them, and
+                # HDF5 does not read a file again which it has open already.
+                with pd.HDFStore(self.filename, mode=kwargs.pop("mode", "r")) as store:
+                    df = pd.read_hdf(store, **kwargs)
         return df
-- 
2.43.0


From 7ac55ae86f94b79ef414853b67e56393b9476621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 44/71] fix: queries lost paths on which a wildcard goes past a
 node its successor matches, or meets another wildcard

---
 hatchet/query/engine.py | 63 +++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 66284c6..cdc1bfa 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -102,34 +102,36 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
-        # If the node matches the "*" wildcard query, recursively
-        # apply this function to the current node's children. Then,
-        # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
+        matches = []
+        is_last = wcard_idx == len(query) - 1
+        if wcard_idx in self.search_cache[node._hatchet_nid]:
+            # If the node matches the "*" wildcard query, recursively
+            # apply this function to the current node's children. Then,
+            # collect their returned matches, and prepend the current node.
             if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+                # The rest of the query has to match no nodes at all.
+                if all(wcard == "*" for wcard, _ in query.query_pattern[wcard_idx:]):
+                    matches.append([node])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
-                if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+                for m in sub_match or []:
+                    # several children can give the empty match
+                    if m or [node] not in matches:
+                        matches.append([node] + m)
+        elif is_last:
+            matches.append([])
+        # If the node matches with the next query node, or if that is a
+        # wildcard, too, the wildcard can also end before this node.
+        if not is_last and (
+            wcard_idx + 1 in self.search_cache[node._hatchet_nid]
+            or query.query_pattern[wcard_idx + 1][0] == "*"
+        ):
+            matches.append([])
         # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        # the next query node, return None.
+        if len(matches) == 0:
             return None
+        return matches
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -175,7 +177,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -244,15 +246,14 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # Wildcards at the start of the query can match no nodes at all.
+        for start_idx, (wcard, _) in enumerate(query):
+            if start_idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, start_idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if wcard != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From 08a66cc0751de30ac0e6bec1f208a8bbf9f41029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 45/71] fix: string dialect rejected queries without the
 optional WHERE statement

---
 hatchet/query/string_dialect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..c3a4971 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -184,6 +184,9 @@ class StringQuery(Query):
         """Top level function for parsing the WHERE statement of
         a String-based query.
         """
+        # The WHERE statement is optional.
+        if cond_expr is None:
+            return
         conditions = cond_expr.conditions
         for cond in conditions:
             converted_condition = None
-- 
2.43.0


From a34688a69a9a98ba768e4325076939339df156c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 46/71] fix: object dialect: values that are not finite, mode
 "all" and leaf depths with multi-indexed data

---
 hatchet/query/object_dialect.py | 50 ++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..d0a4a6e 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -27,6 +27,30 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _compare_number(value, comparison):
+    """Evaluates a string starting with a comparison operator for a numeric value"""
+    # compare nan metric value to numeric query
+    # (e.g. np.nan > 5)
+    if pd.isnull(value):
+        nan_str = "np.nan"
+        # compare nan metric value to nan query
+        # (e.g., np.nan == np.nan)
+        if nan_str in comparison:
+            return eval("pd.isnull({}) == True".format(nan_str))
+        return eval("{} {}".format(nan_str, comparison))
+    elif np.isinf(value):
+        inf_str = "np.inf"
+        # compare inf metric value to inf query
+        # (e.g., np.inf == np.inf)
+        if inf_str in comparison:
+            return eval("np.isinf({}) == True".format(inf_str))
+        if value < 0:
+            inf_str = "-np.inf"
+        return eval("{} {}".format(inf_str, comparison))
+    else:
+        return eval("{} {}".format(value, comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -74,24 +98,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
+                    return _compare_number(df_row[key], single_value)
 
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
@@ -134,6 +141,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -168,11 +178,11 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare_number(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From da4206eace75a87e45f39f57d2d8f047a3d7b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 47/71] fix: compound queries of the string dialect ignored
 multi_index_mode

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index c3a4971..a3ecf7f 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1542,10 +1542,10 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             # If in the first iteration, set the initial query as the result
             # of recursively calling this function on the first curly brace-delimited region
             if i == 0:
-                full_query = parse_string_dialect(query_list[i])
+                full_query = parse_string_dialect(query_list[i], multi_index_mode)
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From fc252907ca2d997f9b27f26d29ff64e161465cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 48/71] fix: string dialect rejected conditions on properties
 after ones on leaves, depths or ids

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index a3ecf7f..f7db16b 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -150,12 +150,12 @@ class StringQuery(Query):
             if n[1] != "":
                 bool_expr = ""
                 type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
-- 
2.43.0


From 569cb902a5e1836057082e5f84d3bdba66a1ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 49/71] fix: string dialect rejected named nodes without
 conditions

---
 hatchet/query/string_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index f7db16b..66d6bd6 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -147,7 +147,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
                 for cond in self.filters[i]:
-- 
2.43.0


From 88ef2802ab3f90b0f6b993b7d4942afdca186e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 50/71] fix: IS NOT NAN and IS NOT INF mixed up any and all
 rows of multi-indexed data

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 66d6bd6..a691b4a 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1300,7 +1300,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                'pd.notna(df_row["{}"])'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1394,7 +1394,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From ac688c49325556dccbf5684021ffe56badfa2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 51/71] fix: string dialect: quotes and backslashes in strings
 broke or changed conditions

---
 hatchet/query/string_dialect.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index a691b4a..473669a 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -468,7 +468,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"] == "{}"'.format(obj.prop, obj.val),
+            'df_row["{}"] == {!r}'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -477,7 +477,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem == "{}")'.format(
+                'df_row["{}"].apply(lambda elem: elem == {!r})'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -489,7 +489,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"].startswith("{}")'.format(obj.prop, obj.val),
+            'df_row["{}"].startswith({!r})'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -498,7 +498,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem.startswith("{}"))'.format(
+                'df_row["{}"].apply(lambda elem: elem.startswith({!r}))'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -510,7 +510,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"].endswith("{}")'.format(obj.prop, obj.val),
+            'df_row["{}"].endswith({!r})'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -519,7 +519,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem.endswith("{}"))'.format(
+                'df_row["{}"].apply(lambda elem: elem.endswith({!r}))'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -531,7 +531,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            '"{}" in df_row["{}"]'.format(obj.val, obj.prop),
+            '{!r} in df_row["{}"]'.format(obj.val, obj.prop),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -540,7 +540,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: "{}" in elem)'.format(
+                'df_row["{}"].apply(lambda elem: {!r} in elem)'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -552,7 +552,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            're.match("{}", df_row["{}"]) is not None'.format(obj.val, obj.prop),
+            're.match({!r}, df_row["{}"]) is not None'.format(obj.val, obj.prop),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -561,7 +561,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: re.match("{}", elem) is not None)'.format(
+                'df_row["{}"].apply(lambda elem: re.match({!r}, elem) is not None)'.format(
                     obj.prop, obj.val
                 )
             ),
-- 
2.43.0


From c3e7c242a49bee8af31cca8ee99199861b825502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 52/71] fix: HDF5 writer could not save columns of extension
 types, e.g. of the native Caliper reader

---
 hatchet/readers/dataframe_reader.py |  4 ++++
 hatchet/writers/dataframe_writer.py | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index a53968d..2dc687a 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -73,6 +73,10 @@ class DataframeReader(ABC):
             rel_dict.update(df.iloc[0, df.columns.get_loc("nodes_without_rows")])
             df.drop(columns=["nodes_without_rows"], inplace=True)
         graph = _reconstruct_graph(rel_dict)
+        # columns of extension types, which were saved as objects
+        if "extension_dtypes" in df.columns:
+            df = df.astype(df.iloc[0, df.columns.get_loc("extension_dtypes")])
+            df.drop(columns=["extension_dtypes"], inplace=True)
         if "node_ordering" in df.columns:
             graph.node_ordering = True
             df.drop(columns=["node_ordering"], inplace=True)
diff --git a/hatchet/writers/dataframe_writer.py b/hatchet/writers/dataframe_writer.py
index 4f8fa1d..48625cb 100644
--- a/hatchet/writers/dataframe_writer.py
+++ b/hatchet/writers/dataframe_writer.py
@@ -7,6 +7,8 @@ from hatchet.node import Node
 
 from abc import abstractmethod
 
+from pandas.api.types import is_extension_array_dtype
+
 # TODO The ABC class was introduced in Python 3.4.
 # When support for earlier versions is (eventually) dropped,
 # this entire "try-except" block can be reduced to:
@@ -81,6 +83,19 @@ class DataframeWriter(ABC):
             dump_df.iat[
                 0, dump_df.columns.get_loc("nodes_without_rows")
             ] = _detach_nodes(other_nodes)
+        # columns of extension types (e.g., nullable integers) are saved as objects
+        extension_dtypes = {
+            column: dtype
+            for column, dtype in dump_df.dtypes.items()
+            if is_extension_array_dtype(dtype)
+        }
+        if extension_dtypes:
+            for column in extension_dtypes:
+                dump_df[column] = dump_df[column].astype(object)
+            dump_df["extension_dtypes"] = None
+            dump_df.iat[
+                0, dump_df.columns.get_loc("extension_dtypes")
+            ] = extension_dtypes
         if gf_cpy.graph.node_ordering:
             dump_df["node_ordering"] = True
         dump_df["exc_metrics"] = None
-- 
2.43.0


From dfead3ce4e1965c529afafce5d96cd87cef8755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 53/71] fix: HDF5 checkpoints: failures to flush and close the
 file were not reported

---
 hatchet/writers/hdf5_writer.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/hatchet/writers/hdf5_writer.py b/hatchet/writers/hdf5_writer.py
index 8148901..857aad9 100644
--- a/hatchet/writers/hdf5_writer.py
+++ b/hatchet/writers/hdf5_writer.py
@@ -4,6 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 import warnings
+import pandas as pd
 import sys
 
 from .dataframe_writer import DataframeWriter
@@ -23,4 +24,23 @@ class HDF5Writer(DataframeWriter):
         del kwargs["key"]
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=Warning)
-            df.to_hdf(self.filename, key, **kwargs)
+            if isinstance(self.filename, pd.HDFStore):
+                df.to_hdf(self.filename, key, **kwargs)
+                return
+            # PyTables ignores errors when HDF5 flushes and closes files. So, have
+            # HDF5 write to memory only, and write the file here.
+            options = ("mode", "complevel", "complib")
+            options = {o: kwargs.pop(o) for o in options if o in kwargs}
+            with pd.HDFStore(
+                self.filename,
+                driver="H5FD_CORE",
+                driver_core_backing_store=0,
+                **options
+            ) as store:
+                if kwargs.pop("append", False):
+                    store.append(key, df, **kwargs)
+                else:
+                    store.put(key, df, **kwargs)
+                image = store.root._v_file.get_file_image()
+        with open(self.filename, "wb") as f:
+            f.write(image)
-- 
2.43.0


From 903b4beac2d41a8372e873966e13c9bf2997364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 54/71] fix: depths of nodes with several parents depended on
 the order of the list of roots

---
 hatchet/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 14b39f6..90ae191 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -349,8 +349,11 @@ class Graph:
                     child._depth = node._depth + 1
                     _iter_depth(child, visited)
 
+        # Which depth a node with several parents gets depends on the order of the
+        # roots; readers do not keep the order of the list.
+        order = node_traversal_order if self.node_ordering else traversal_order
         visited = set()
-        for root in self.roots:
+        for root in sorted(self.roots, key=order):
             root._depth = 0  # depth of root node is 0
             _iter_depth(root, visited)
 
-- 
2.43.0


From e435b1a151112c79bb279989ea923ce5ac263c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 55/71] fix: merging nodes left the depths of nodes with
 several parents as they were

---
 hatchet/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 90ae191..5e0e033 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -160,6 +160,8 @@ class Graph:
     def normalize(self):
         merges = self.find_merges()
         self.merge_nodes(merges)
+        if merges:
+            self.enumerate_depth()
         return merges
 
     def copy(self, old_to_new=None):
-- 
2.43.0


From f73ce5ae3ea74d1233316d9482ec351db971dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 56/71] fix: HPCToolkit: do not keep the source file of
 statements in a global

Loading two databases in concurrent threads mixed up their files, and
statements after an inlined procedure or call got the file of that one.
---
 hatchet/readers/hpctoolkit_reader.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index d83524c..ad44ea0 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -263,8 +263,6 @@ class HPCToolkitReader:
 
         # parse the ElementTree to generate a calling context tree
         for root in self.callpath_profile.findall("PF"):
-            global src_file
-
             nid = int(root.get("i"))
             src_file = root.get("f")
 
@@ -291,7 +289,7 @@ class HPCToolkitReader:
 
             # start graph construction at the root
             with self.timer.phase("graph construction"):
-                self.parse_xml_children(root, graph_root)
+                self.parse_xml_children(root, graph_root, src_file)
 
             # put updated metrics back in dataframe
             for i, column in enumerate(self.metric_columns):
@@ -329,19 +327,19 @@ class HPCToolkitReader:
 
         return hatchet.graphframe.GraphFrame(graph, dataframe, exc_metrics, inc_metrics)
 
-    def parse_xml_children(self, xml_node, hnode):
+    def parse_xml_children(self, xml_node, hnode, src_file):
         """Parses all children of an XML node."""
         for xml_child in xml_node:
             if xml_child.tag != "M":
                 nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
-                self.parse_xml_node(xml_child, nid, line, hnode)
+                self.parse_xml_node(xml_child, nid, line, hnode, src_file)
 
-    def parse_xml_node(self, xml_node, parent_nid, parent_line, hparent):
-        """Parses an XML node and its children recursively."""
+    def parse_xml_node(self, xml_node, parent_nid, parent_line, hparent, src_file):
+        """Parses an XML node and its children recursively. Statements are in the
+        source file of the procedure or loop around them, src_file."""
         nid = int(xml_node.get("i"))
 
-        global src_file
         xml_tag = xml_node.tag
 
         if xml_tag == "PF" or xml_tag == "Pr":
@@ -419,11 +417,11 @@ class HPCToolkitReader:
             # for Prs, the preceding Pr has the calling line number and for
             # PFs, the preceding C has the line number
             line = int(xml_node.get("l"))
-            self.parse_xml_children(xml_node, hparent)
+            self.parse_xml_children(xml_node, hparent, src_file)
         else:
             self.node_dicts.append(node_dict)
             hparent.add_child(hnode)
-            self.parse_xml_children(xml_node, hnode)
+            self.parse_xml_children(xml_node, hnode, src_file)
 
     def create_node_dict(self, nid, hnode, name, node_type, src_file, line, module):
         """Create a dict with all the node attributes."""
-- 
2.43.0


From a4d191614f8a0a286ec0cb4dfbabd3b81c922997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 57/71] fix: do not share the colormap between renderings of
 coloured trees

The colormap was set on the class, so a rendering in another thread changed it.
---
 hatchet/external/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..9b93110 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -72,7 +72,7 @@ class ConsoleRenderer:
         self.max_value = kwargs["max_value"]
 
         if self.color:
-            self.colors = self.colors_enabled
+            self.colors = self.colors_enabled()
             # set the colormap based on user input
             self.colors.colormap = ColorMaps().get_colors(
                 self.colormap, self.invert_colormap
-- 
2.43.0


From bff9e6ddf707bd82e553a88f839ef4933cb44b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 58/71] fix: do not share nested metadata between GraphFrames

Metadata may hold lists and dictionaries, and copies, filtered, squashed and
combined GraphFrames shared those with their origin.
---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 08ed83c..6642740 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -389,7 +389,7 @@ class GraphFrame:
             copy.copy(self.exc_metrics),
             copy.copy(self.inc_metrics),
             self.default_metric,
-            copy.copy(self.metadata),
+            copy.deepcopy(self.metadata),
         )
 
     def deepcopy(self):
@@ -565,7 +565,7 @@ class GraphFrame:
         filtered_gf.exc_metrics = copy.copy(self.exc_metrics)
         filtered_gf.inc_metrics = copy.copy(self.inc_metrics)
         filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = copy.copy(self.metadata)
+        filtered_gf.metadata = copy.deepcopy(self.metadata)
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
@@ -668,7 +668,7 @@ class GraphFrame:
             copy.copy(self.exc_metrics),
             copy.copy(self.inc_metrics),
             self.default_metric,
-            copy.copy(self.metadata),
+            copy.deepcopy(self.metadata),
         )
         if update_inc_cols:
             new_gf.update_inclusive_columns()
@@ -1517,7 +1517,7 @@ class GraphFrame:
             [m for m in self.exc_metrics if m in tmp_df.columns],
             [m for m in self.inc_metrics if m in tmp_df.columns],
             self.default_metric,
-            copy.copy(self.metadata),
+            copy.deepcopy(self.metadata),
         )
         new_gf.drop_index_levels()
         return new_gf
-- 
2.43.0


From 04fdb02807512413eb547ba6d412eacd398aee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 59/71] fix: Roundtrip: hand over text with backslashes and
 line breaks unchanged

---
 hatchet/external/roundtrip/roundtrip/manager.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 1b37973..d98ab53 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -460,7 +460,7 @@ class Bridge:
                 \'two_way\': {binding},
                 \'python_var\':\'{py_var}\',
                 \'type\':\'{type}\',
-                \'data\':\'{data}\',
+                \'data\':{data},
                 \'converter\':{converter},
             }};
         }})();\n"""
@@ -481,9 +481,6 @@ class Bridge:
         except Exception:
             pass
 
-        # Patch: Ensure all ' and " are escaped
-        data = data.replace('"', '\\"').replace("'", "\\'")
-
         conv_spec = None
 
         if js_to_py_converter is not None:
@@ -498,7 +495,7 @@ class Bridge:
                 binding=two_way,
                 py_var=python_var,
                 type=datatype,
-                data=data,
+                data=json.dumps(data, default=str),
                 converter=json.dumps(conv_spec),
             )
         )
-- 
2.43.0


From fe3b0009722cebe863343ea897da8fb560314ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 60/71] fix: Roundtrip: hand over assigned values with special
 characters

---
 hatchet/external/roundtrip/roundtrip/manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index d98ab53..95758a7 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -345,7 +345,7 @@ class RoundTrip:
         update_flags = {}
         update_hook = """\n (function(){{
                                 window.Roundtrip[\'{js_var}\'] = {{
-                                    \'data\': \'{data}\',
+                                    \'data\': {data},
                                     \'python_var\': \'{var}\',
                                     \'origin\': \'PYASSIGN\'
                                 }};
@@ -372,7 +372,9 @@ class RoundTrip:
         for flag in update_flags:
             new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
             for var in self.watched[flag]["js_var"]:
-                code += update_hook.format(js_var=var, data=new_data, var=flag)
+                code += update_hook.format(
+                    js_var=var, data=json.dumps(new_data, default=str), var=flag
+                )
         if code != "":
             display(Javascript(code))
 
-- 
2.43.0


From 049e55a1383af9ce1cada8fa4db29b1e7cb67d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 61/71] fix: Roundtrip: fetch text with special characters
 unchanged

---
 hatchet/external/roundtrip/roundtrip/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 95758a7..0defa00 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -508,7 +508,7 @@ class Bridge:
         hook_template = """
             (function(){{
                     var holder = Roundtrip['{src}'];
-                    holder = `\'${{holder}}\'`;
+                    holder = JSON.stringify(`${{holder}}`);
                     var code = {converter_code};
                     code += `\n{dest} = {converter_name}(${{holder}})`;
                     IPython.notebook.kernel.execute(code, {{
-- 
2.43.0


From f7341bd5ec82796db55725303d0bf1870f731c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 62/71] fix: Roundtrip: fetch with converters that are nested
 functions

---
 hatchet/external/roundtrip/roundtrip/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 0defa00..156f5dc 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -8,6 +8,7 @@ import json
 import inspect
 import os
 import sys
+import textwrap
 
 
 def _default_converter(data):
@@ -527,7 +528,7 @@ class Bridge:
         hook = hook_template.format(
             src=str(js_variable),
             dest=str(notebook_var),
-            converter_code=json.dumps(inspect.getsource(converter)),
+            converter_code=json.dumps(textwrap.dedent(inspect.getsource(converter))),
             converter_name=converter.__name__,
         )
 
-- 
2.43.0


From ee2e87dd509319a70e921be1296e2f7dc76224f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 63/71] fix: Roundtrip: read back text with special characters
 unchanged

---
 hatchet/external/roundtrip/roundtrip/roundtrip.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/roundtrip.js b/hatchet/external/roundtrip/roundtrip/roundtrip.js
index 309fd2d..a12b2fe 100644
--- a/hatchet/external/roundtrip/roundtrip/roundtrip.js
+++ b/hatchet/external/roundtrip/roundtrip/roundtrip.js
@@ -35,7 +35,7 @@ function unindentPyCode(code){
  */
 function buildPythonAssignment(val, py_var, converter){
     // console.log(val, py_var, converter);
-    var holder = `'${val}'`;
+    var holder = JSON.stringify(`${val}`);
     var code = `${unindentPyCode(converter.code)}`
     code += `\ntmp = ${holder}`;
     code += `\n${py_var} = ${converter.name}(tmp)`
-- 
2.43.0


From ce84686e65928f2057fdecb7ac9d34b6e615bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 64/71] fix: Roundtrip: each visualisation of load_web_files
 has its own locator

---
 hatchet/external/roundtrip/roundtrip/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 156f5dc..b22e0a9 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -211,6 +211,9 @@ class RoundTrip:
                 output_html += self._file_formatter(file)
 
         bdg = Bridge(output_html, scripts, self.shell, self.istest)
+
+        self.scrid += 1
+
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-- 
2.43.0


From 16d30f45083b09b11a76f41823f6ce1ca0d244a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 65/71] fix: Roundtrip: keep every binding of a watched
 variable, with its converter

---
 hatchet/external/roundtrip/roundtrip/manager.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index b22e0a9..62f7dab 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -289,16 +289,7 @@ class RoundTrip:
 
             jup_var = jup_var[1:]
 
-            if (
-                jup_var in self.watched.keys()
-                and js_variable not in self.watched[jup_var]["js_var"]
-            ):
-                self.watched[jup_var]["js_var"].append(js_variable)
-            else:
-                self.watched[jup_var] = {
-                    "converter": to_js_converter,
-                    "js_var": [js_variable],
-                }
+            self.watched.setdefault(jup_var, {})[js_variable] = to_js_converter
         else:
             watch = "false"
 
@@ -374,8 +365,8 @@ class RoundTrip:
                         break
 
         for flag in update_flags:
-            new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
-            for var in self.watched[flag]["js_var"]:
+            for var, converter in self.watched[flag].items():
+                new_data = converter(self.shell.user_ns[flag])
                 code += update_hook.format(
                     js_var=var, data=json.dumps(new_data, default=str), var=flag
                 )
-- 
2.43.0


From 6954016c901a747443975345fa2f3e402a9d0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 66/71] fix: Roundtrip: accept new variables while cells are
 re-run

---
 hatchet/external/roundtrip/roundtrip/roundtrip.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/roundtrip.js b/hatchet/external/roundtrip/roundtrip/roundtrip.js
index a12b2fe..794693d 100644
--- a/hatchet/external/roundtrip/roundtrip/roundtrip.js
+++ b/hatchet/external/roundtrip/roundtrip/roundtrip.js
@@ -134,7 +134,7 @@ var RT_Handler = {
             let new_val = value;
 
             // Block updating bindings while jupyter is running
-            if(refresh_cycle){
+            if(refresh_cycle && obj[prop] !== undefined){
                 new_val = obj[prop];
                 new_val.data = value.data;
                 return Reflect.set(obj, prop, new_val);
-- 
2.43.0


From 848760ff9499b5962854deed84f2d75243422cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 67/71] fix: Roundtrip: do not put a stale value back when the
 module loads late

---
 hatchet/external/roundtrip/roundtrip/roundtrip.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/roundtrip/roundtrip/roundtrip.js b/hatchet/external/roundtrip/roundtrip/roundtrip.js
index 794693d..11f3e5d 100644
--- a/hatchet/external/roundtrip/roundtrip/roundtrip.js
+++ b/hatchet/external/roundtrip/roundtrip/roundtrip.js
@@ -240,7 +240,7 @@ var RT_Handler = {
                         }
 
                         if(!found){
-                            return Reflect.set(obj[prop], "data", value);
+                            return;
                         }
                     }
 
-- 
2.43.0


From c64a4c24669706e7070e195132a595171f4908d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 68/71] fix: add nodes with several parents only once to the
 union of two graphs

---
 hatchet/graph.py | 75 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 5e0e033..aba3f46 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -209,6 +209,35 @@ class Graph:
         if old_to_new is None:
             old_to_new = {}  # mapping from old nodes to new nodes
 
+        # mapping from nodes to the nodes of the other graph they are merged with
+        partners = {}
+
+        def _find_partners(self_children, other_children):
+            """Recursively find the nodes that self and other have in common.
+
+            A node with several parents can be reached through a parent that only
+            one of the graphs has before it is reached through a common parent.
+            """
+            self_children = iter(sorted(self_children, key=lambda n: n.frame))
+            other_children = iter(sorted(other_children, key=lambda n: n.frame))
+            self_child = next(self_children, None)
+            other_child = next(other_children, None)
+
+            while self_child and other_child:
+                if self_child.frame < other_child.frame:
+                    self_child = next(self_children, None)
+                elif self_child.frame > other_child.frame:
+                    other_child = next(other_children, None)
+                else:
+                    if id(self_child) not in partners and id(other_child) not in partners:
+                        partners[id(self_child)] = other_child
+                        partners[id(other_child)] = self_child
+                        _find_partners(self_child.children, other_child.children)
+                    self_child = next(self_children, None)
+                    other_child = next(other_children, None)
+
+        _find_partners(self.roots, other.roots)
+
         def _merge(self_children, other_children, parent):
             """Recursively merge children of self and other.
 
@@ -231,6 +260,24 @@ class Graph:
                     old_to_new[id(node)] = new_node
                 return new_node
 
+            def merge_unique(self_child, other_child):
+                """Make a new node for a child that only one of the parents has, and
+                for the node of the other graph it is merged with, if any."""
+                partner = partners.get(id(self_child or other_child))
+                if partner and id(partner) not in old_to_new:
+                    self_child = self_child or partner
+                    other_child = other_child or partner
+                nodes = [node for node in (self_child, other_child) if node]
+                new_node = make_node(*nodes)
+                self_side = self_child.children if self_child else []
+                other_side = other_child.children if other_child else []
+                _merge(
+                    sorted(self_side, key=lambda n: n.frame),
+                    sorted(other_side, key=lambda n: n.frame),
+                    new_node,
+                )
+                return new_node
+
             new_children = []
 
             def connect(parent, new_node):
@@ -249,12 +296,7 @@ class Graph:
                     # self_child is unique
                     new_node = old_to_new.get(id(self_child))
                     if not new_node:
-                        new_node = make_node(self_child)
-                        _merge(
-                            sorted(self_child.children, key=lambda n: n.frame),
-                            (),
-                            new_node,
-                        )
+                        new_node = merge_unique(self_child, None)
                     connect(parent, new_node)
                     self_child = next(self_children, None)
 
@@ -262,12 +304,7 @@ class Graph:
                     # other_child is unique
                     new_node = old_to_new.get(id(other_child))
                     if not new_node:
-                        new_node = make_node(other_child)
-                        _merge(
-                            (),
-                            sorted(other_child.children, key=lambda n: n.frame),
-                            new_node,
-                        )
+                        new_node = merge_unique(None, other_child)
                     connect(parent, new_node)
                     other_child = next(other_children, None)
 
@@ -307,24 +344,14 @@ class Graph:
             while self_child:
                 new_node = old_to_new.get(id(self_child))
                 if not new_node:
-                    new_node = make_node(self_child)
-                    _merge(
-                        sorted(self_child.children, key=lambda n: n.frame),
-                        (),
-                        new_node,
-                    )
+                    new_node = merge_unique(self_child, None)
                 connect(parent, new_node)
                 self_child = next(self_children, None)
 
             while other_child:
                 new_node = old_to_new.get(id(other_child))
                 if not new_node:
-                    new_node = make_node(other_child)
-                    _merge(
-                        (),
-                        sorted(other_child.children, key=lambda n: n.frame),
-                        new_node,
-                    )
+                    new_node = merge_unique(None, other_child)
                 connect(parent, new_node)
                 other_child = next(other_children, None)
 
-- 
2.43.0


From c98aee9b22049bf2405fa9ecb9d33f4e0ecb52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 69/71] fix: CCT view: hand over queries without escapes, as
 Roundtrip keeps them

---
 hatchet/vis/scripts/cct/cct_model.js | 14 +++++++-------
 hatchet/vis/static/cct_bundle.js     | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index 51518b3..5e7d3c5 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -39,7 +39,7 @@ class Model{
                     };
 
         //setup model
-        RT['jsNodeSelected'] = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+        RT['jsNodeSelected'] = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
         let cleanTree = RT["hatchet_tree_def"];
         let _forestData = JSON.parse(cleanTree);
         this.forest = new Forest(_forestData);
@@ -673,20 +673,20 @@ class Model{
         let full_query = '';
 
         //inclusive query
-        let path_query = `MATCH (\\"*\\")->(n) `;
+        let path_query = `MATCH ("*")->(n) `;
         let initial_flag = true;
         for(const leaf of norms){
             if(initial_flag){
                 if(leaf.data.aggregate){
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
                 }
                 else{
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
                 }
                 initial_flag = false;
             }
             else{
-                path_query += ` OR n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                path_query += ` OR n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
             }
         }
 
@@ -700,11 +700,11 @@ class Model{
             let ex_query = 'MATCH (r) ' 
             for(const node of this.data.removedNodes){
                 if(initial_flag){
-                    ex_query += `WHERE NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += `WHERE NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                     initial_flag = false;
                 }
                 else{
-                    ex_query += ` AND NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += ` AND NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                 }
             }
 
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 912ac50..f7f3067 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22044,7 +22044,7 @@ var Model = /*#__PURE__*/function () {
       "metricUpdated": true
     }; //setup model
 
-    RT.jsNodeSelected = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+    RT.jsNodeSelected = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
     var cleanTree = RT.hatchet_tree_def;
 
     var _forestData = JSON.parse(cleanTree);
@@ -22797,7 +22797,7 @@ var Model = /*#__PURE__*/function () {
       console.log(norms);
       var full_query = ''; //inclusive query
 
-      var path_query = "MATCH (\\\"*\\\")->(n) ";
+      var path_query = "MATCH (\"*\")->(n) ";
       var initial_flag = true;
 
       var _iterator8 = cct_model_createForOfIteratorHelper(norms),
@@ -22809,14 +22809,14 @@ var Model = /*#__PURE__*/function () {
 
           if (initial_flag) {
             if (leaf.data.aggregate) {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
             } else {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
             }
 
             initial_flag = false;
           } else {
-            path_query += " OR n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+            path_query += " OR n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
           }
         }
       } catch (err) {
@@ -22840,10 +22840,10 @@ var Model = /*#__PURE__*/function () {
             var node = _step9.value;
 
             if (initial_flag) {
-              ex_query += "WHERE NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += "WHERE NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
               initial_flag = false;
             } else {
-              ex_query += " AND NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += " AND NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
             }
           }
         } catch (err) {
-- 
2.43.0


From 9cdff0f21a564627e3c1d03300573306ea7b1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 70/71] fix: %cct: do not write to a file called "check"

---
 hatchet/vis/loader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 902dce8..8298294 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -26,8 +26,6 @@ def _gf_to_json(data):
         if isinstance(data, GraphFrame):
             return json.dumps(data.to_literal(), default=serialize)
         else:
-            with open("check", "w") as f:
-                f.write(json.dumps(data, default=serialize))
             return json.dumps(data, default=serialize)
     except ValueError:
         raise "Input data is not of type graphframe or json serializable."
-- 
2.43.0


From 26bc4c968c0f9ea066cc737b227cd94757a34ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 71/71] fix: %cct: show GraphFrames with integer metrics

---
 hatchet/vis/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 8298294..93de9d4 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -15,11 +15,14 @@ vis_dir = dirname(path.abspath(__file__))
 
 def _gf_to_json(data):
     import json
+    from numpy import generic
     from pandas import Series
 
     def serialize(obj):
         if isinstance(obj, Series):
             return obj.to_json
+        if isinstance(obj, generic):
+            return obj.item()
         return obj.__dict__
 
     try:
-- 
2.43.0

