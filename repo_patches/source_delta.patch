From 4c06e71f261ac6c417313b3173b826a6188db05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 01/55] fix: select all keys of a source with an empty set in a
 dict selection

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..005690d 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -795,7 +795,7 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                res[source] = set(keys) if keys else None
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
-- 
2.43.0


From 2ebd9383e1ccb17dda542e18104b6c1a17cba54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 02/55] fix: leave out keys with no data when iterating over
 trains

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 005690d..4715513 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1282,6 +1282,9 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
+
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From fbc344a20e460c56f30697273d043be229bb125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 03/55] fix: do not bring back deselected keys when selecting
 from a selection

---
 karabo_data/reader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 4715513..1e7d956 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -885,6 +885,16 @@ class DataCollection:
             seln_or_source_glob = [(seln_or_source_glob, key_glob)]
         selection = self._expand_selection(seln_or_source_glob)
 
+        # Stay within the keys already selected in this collection
+        for source, keys in selection.items():
+            selected_keys = self.selection[source]
+            if selected_keys is None:
+                continue
+            if keys is None:
+                selection[source] = selected_keys
+            elif not keys <= selected_keys:
+                raise PropertyNameError(min(keys - selected_keys), source)
+
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
 
-- 
2.43.0


From d1a9988cc5a3c04734e6f4ddbef81741012ab46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 04/55] fix: slice trains by an ID which falls in a gap between
 trains

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..1ca699c 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -84,7 +84,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return (np.asarray(train_ids) > tid).nonzero()[0][0]
 
 
 class DataChunk:
-- 
2.43.0


From c7e0828ebfc5c5b8838dd9645a4964a3ee0b82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 05/55] fix: get_data_counts() for control sources

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1e7d956..0187b9e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,7 +498,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                counts = np.ones(len(f.train_ids), dtype=np.uint64)
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
-- 
2.43.0


From 1f25210a0160a660d8999e76352595ae67b7a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 06/55] fix: get_series() when a file has no entries for the
 source

---
 karabo_data/reader.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 0187b9e..f7d49aa 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -504,7 +504,7 @@ class DataCollection:
                 _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = self._concat_series(seq_series)
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
@@ -564,12 +564,14 @@ class DataCollection:
                     assert data.shape[1] == 1
                     data = data[:, 0]
                 data = data[: len(index)]
+                if not len(index):
+                    data = data.reshape(0)
 
                 seq_series.append(pd.Series(data, name=name, index=index))
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = self._concat_series(seq_series)
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
@@ -581,6 +583,18 @@ class DataCollection:
 
         return ser.loc[train_ids]
 
+    @staticmethod
+    def _concat_series(seq_series):
+        """Join series from different files in order of train IDs"""
+        import pandas as pd
+
+        # A file may have no entries for the source: it has no place in the
+        # order, and its index may be of a different kind (no pulse IDs).
+        with_data = [s for s in seq_series if len(s)]
+        if not with_data:
+            return seq_series[0]
+        return pd.concat(sorted(with_data, key=lambda s: s.index[0]))
+
     def get_dataframe(self, fields=None, *, timestamps=False):
         """Return a pandas dataframe for given data fields.
 
-- 
2.43.0


From 14a6dd6b7f9a0cf5c773b6fab07e6b3a1e5530c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 07/55] fix: get_dask_array() when part of the files have no
 data for the field

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index f7d49aa..a9f3317 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -756,7 +756,8 @@ class DataCollection:
 
         chunks_darrs = []
         for chunk in chunks:
-            chunk_dim0 = int(np.sum(chunk.counts))
+            # At least 1: Dask can't split an array into chunks of size 0
+            chunk_dim0 = max(int(np.sum(chunk.counts)), 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From 3c1ece808b63d1d47b77e90ffaeb1de9f060391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/55] fix: read from collections including files with no
 trains

---
 karabo_data/read_machinery.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 1ca699c..804dc40 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -124,6 +124,10 @@ def contiguous_regions(condition):
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
 
+    # Files without any trains have no regions
+    if condition.size == 0:
+        return np.zeros((0, 2), dtype=np.intp)
+
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
     idx, = d.nonzero()
-- 
2.43.0


From 985c5bd4ab835e5f19476a891e833d689e904777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 09/55] fix: open runs when the cache can't be written for any
 reason

---
 karabo_data/run_files_map.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..fa52a6a 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
@@ -128,8 +127,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors from writing the cache
+        file, such as missing permissions or a full disk.
         """
         need_save = False
 
@@ -168,7 +167,7 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From 240e353e2e0ea0241aae9b5e86fa0a2abef03b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 10/55] fix: open runs when the cache can't be read or isn't a
 files map

---
 karabo_data/run_files_map.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index fa52a6a..a3a696f 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -29,6 +29,23 @@ def atomic_dump(obj, path, **kwargs):
         raise
 
 
+def _is_valid_entry(info):
+    """Check that a cache entry has the fields & types we need"""
+    def is_list_of(x, types):
+        return isinstance(x, list) and all(isinstance(e, types) for e in x)
+
+    return (
+        isinstance(info, dict)
+        and isinstance(info.get('filename'), str)
+        and isinstance(info.get('mtime'), (int, float))
+        and isinstance(info.get('size'), int)
+        and is_list_of(info.get('train_ids'), int)
+        and all(0 <= t < 2 ** 64 for t in info['train_ids'])
+        and is_list_of(info.get('control_sources'), str)
+        and is_list_of(info.get('instrument_sources'), str)
+    )
+
+
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
 
@@ -88,14 +105,20 @@ class RunFilesMap:
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
+            except (OSError, ValueError, RecursionError):
+                # Missing, unreadable, or not JSON in UTF-8
                 pass
 
+        if not isinstance(loaded_data, list):
+            loaded_data = []
+
         for info in loaded_data:
+            if not _is_valid_entry(info):
+                continue
             filename = info['filename']
             try:
                 st = os.stat(osp.join(self.directory, filename))
-            except OSError:
+            except (OSError, ValueError):
                 continue
             if (st.st_mtime == info['mtime']) and (st.st_size == info['size']):
                 self.files_data[filename] = info
-- 
2.43.0


From ce2b6811d30221c9b535a938ba0d45a1167a9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 11/55] fix: use --source and --key in
 karabo-bridge-serve-files

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..59cc34b 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -260,4 +260,4 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source, key_glob=args.key)
-- 
2.43.0


From dac680844e67a3164efe23b9997c5325f6589854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 12/55] fix: keep caller's metadata unchanged & send it in
 protocol 1.0

---
 karabo_data/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 59cc34b..685ad55 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -121,6 +121,8 @@ class ZMQStreamer:
     def _serialize(self, data, metadata=None):
         if not metadata:
             metadata = {src: v.get('metadata', {}) for src, v in data.items()}
+        # Don't modify the caller's dictionaries
+        metadata = {src: dict(md) for src, md in metadata.items()}
 
         if self.dummy_timestamps:
             ts = time()
@@ -136,7 +138,11 @@ class ZMQStreamer:
                     metadata[src].update(update_dummy)
 
         if self.protocol_version == '1.0':
-            return [self.pack(data)]
+            # This version has no separate metadata, it goes in the data
+            return [self.pack({
+                src: dict(v, metadata=metadata[src]) if metadata.get(src) else v
+                for src, v in data.items()
+            })]
 
         msg = []
         for src, props in sorted(data.items()):
-- 
2.43.0


From 5599b6ab484c83efe8e3073dd8687d7e6efac0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 13/55] fix: stop a streamer reliably & serve all data from
 files before stopping

---
 karabo_data/export.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 685ad55..7eb64b8 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -12,7 +12,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 
 from argparse import ArgumentParser
 import os.path as osp
-from queue import Queue
+from queue import Empty, Queue
 from threading import Event, Thread
 from time import time
 
@@ -39,13 +39,27 @@ class REPInterface(Thread):
             interface.bind('tcp://*:{}'.format(self.port))
 
             while not self.stopped():
+                # Wake up regularly to check if we should stop
+                if not interface.poll(100):
+                    continue
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-                interface.send_multipart(self.buffer.get())
+                msg = self.next_message()
+                if msg is None:
+                    break
+                interface.send_multipart(msg)
+                self.buffer.task_done()
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
-            interface.close()
+            # Leave some time for the last reply to be sent
+            interface.close(linger=10000)
+
+    def next_message(self):
+        while not self.stopped():
+            try:
+                return self.buffer.get(timeout=0.1)
+            except Empty:
+                pass
 
     def stop(self):
         self._stop_event.set()
@@ -249,6 +263,7 @@ def serve_files(path, port, source_glob='*', key_glob='*', **kwargs):
     for tid, train_data in data.trains():
         if train_data:
             streamer.feed(train_data)
+    streamer._buffer.join()  # Wait for clients to take all the data
     streamer.stop()
 
 
-- 
2.43.0


From a07341ad0a90dab22c7060ee67d301fa936e29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 14/55] fix: read control data through its index (trains
 without an entry)

---
 karabo_data/reader.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index a9f3317..479a537 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -498,10 +506,10 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(len(f.train_ids), dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
         ser = self._concat_series(seq_series)
@@ -540,8 +548,10 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1291,10 +1301,12 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if counts[pos]:
+                    source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From 0de6e977c2b4411b5e48600e925000c0c92c81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 15/55] fix: write control data missing in some of the selected
 trains

---
 karabo_data/writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..2996bfb 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From aef37e420afdfe334355d501143a4238ca7b3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 16/55] fix: report errors while writing out a file

---
 karabo_data/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 2996bfb..db393ef 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -107,6 +107,10 @@ class FileWriter:
         self.write_metadata()
         self.set_writer()
 
+        # Finish writing now: errors are lost if the file is closed only when
+        # it's garbage collected.
+        self.file.close()
+
 
 class VirtualFileWriter(FileWriter):
     """Write virtual datasets in European XFEL format
-- 
2.43.0


From 78fa1344e412938f39b4878b902a41385ac6d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 17/55] fix: reopen and link to files opened by a relative path

---
 karabo_data/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 479a537..aedced2 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,6 +76,10 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
+        # The file may be opened again, or linked to from virtual datasets, when
+        # the working directory is no longer the same.
+        if not osp.isabs(filename):
+            filename = osp.join(os.getcwd(), filename)
         self.filename = filename
 
         if _cache_info:
-- 
2.43.0


From e8825c9a5c661bd51c0476c7459ec84f01407429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 18/55] fix: validate runs where some files have no cache entry

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..fb45fc5 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -191,6 +191,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # No valid cache entry for this file
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From 35f82fb2e4f1e578b657c4c13d27304760f8abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 19/55] fix: validate files with no trains, or first & count of
 different lengths

---
 karabo_data/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index fb45fc5..e6b8ea0 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -79,6 +79,8 @@ class FileValidator:
                 src_groups.add((src, group))
                 first, count = self.file.get_index(src, group)
                 data_dim0 = self.file.file[ds_path].shape[0]
+                if first.shape != count.shape:
+                    continue  # Reported below
                 if np.any((first + count) > data_dim0):
                     max_end = (first + count).max()
                     self.record(
@@ -106,6 +108,7 @@ class FileValidator:
                         first_shape=first.shape,
                         count_shape=count.shape,
                     )
+                    continue
 
                 if first.shape != self.file.train_ids.shape:
                     record(
@@ -120,6 +123,9 @@ class FileValidator:
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
+    if firsts.size == 0:
+        return probs
+
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-- 
2.43.0


From 75e04ff35ad6e7af2c793eeb6b119f88655edba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 20/55] fix: report conflicting sources as a problem when
 validating a run

---
 karabo_data/validation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e6b8ea0..cf7da88 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -162,7 +162,7 @@ class RunValidator:
             else:
                 files.append(fa)
 
-        self.run = DataCollection(files)
+        self.files = files
         self.problems = []
 
     def validate(self):
@@ -174,6 +174,7 @@ class RunValidator:
         self.problems = []
         self.check_files_openable()
         self.check_files()
+        self.check_source_conflicts()
         self.check_files_map()
         return self.problems
 
@@ -181,21 +182,27 @@ class RunValidator:
         for path, err in self.files_excluded:
             self.problems.append(dict(msg="Could not open file", file=path, error=err))
 
-        if not self.run.files:
+        if not self.files:
             self.problems.append(
                 dict(msg="No usable files found", directory=self.run_dir)
             )
 
     def check_files(self):
-        for f in self.run.files:
+        for f in self.files:
             fv = FileValidator(f)
             self.problems.extend(fv.run_checks())
 
+    def check_source_conflicts(self):
+        try:
+            DataCollection(self.files)
+        except ValueError as e:
+            self.problems.append(dict(msg=str(e), directory=self.run_dir))
+
     def check_files_map(self):
         # Outdated cache entries we can detect with the file's stat() are not a
         # problem. Loading the cache file will discard those automatically.
         cache = RunFilesMap(self.run_dir)
-        for f_access in self.run.files:
+        for f_access in self.files:
             f_cache = cache.get(f_access.filename)
             if f_cache is None:
                 continue  # No valid cache entry for this file
-- 
2.43.0


From 6ce5de845ed0c8d6cbcd62b42270575ad14371c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 21/55] fix: check the indexes of control sources when
 validating

---
 karabo_data/validation.py | 100 ++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 46 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index cf7da88..120e8b4 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -71,53 +71,61 @@ class FileValidator:
                 )
 
     def check_indices(self):
+        for src in self.file.control_sources:
+            self.check_source_indices(src, 'CONTROL')
         for src in self.file.instrument_sources:
-            src_groups = set()
-            for key in self.file.get_keys(src):
-                ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
-                group = key.split('.', 1)[0]
-                src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
-                data_dim0 = self.file.file[ds_path].shape[0]
-                if first.shape != count.shape:
-                    continue  # Reported below
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
-                    self.record(
-                        'Index referring to data ({}) outside dataset ({})'.format(
-                            max_end, data_dim0
-                        ),
-                        dataset=ds_path,
-                    )
-
-            for src, group in src_groups:
-                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
-                first, count = self.file.get_index(src, group)
-
-                if (first.ndim != 1) or (count.ndim != 1):
-                    record(
-                        "Index first / count are not 1D",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-                    continue
-
-                if first.shape != count.shape:
-                    record(
-                        "Index first & count have different number of entries",
-                        first_shape=first.shape,
-                        count_shape=count.shape,
-                    )
-                    continue
-
-                if first.shape != self.file.train_ids.shape:
-                    record(
-                        "Index has wrong number of entries",
-                        index_shape=first.shape,
-                        trainids_shape=self.file.train_ids.shape,
-                    )
-
-                check_index_contiguous(first, count, record)
+            self.check_source_indices(src, 'INSTRUMENT')
+
+    def check_source_indices(self, src, category):
+        src_groups = set()
+        for key in self.file.get_keys(src):
+            ds_path = '{}/{}/{}'.format(category, src, key.replace('.', '/'))
+            # All the keys of a control source share one index
+            group = '' if category == 'CONTROL' else key.split('.', 1)[0]
+            src_groups.add((src, group))
+            first, count = self.file.get_index(src, group)
+            data_dim0 = self.file.file[ds_path].shape[0]
+            if first.shape != count.shape:
+                continue  # Reported below
+            if np.any((first + count) > data_dim0):
+                max_end = (first + count).max()
+                self.record(
+                    'Index referring to data ({}) outside dataset ({})'.format(
+                        max_end, data_dim0
+                    ),
+                    dataset=ds_path,
+                )
+
+        for src, group in src_groups:
+            record = partial(
+                self.record, dataset='/'.join(['INDEX', src, group]).rstrip('/')
+            )
+            first, count = self.file.get_index(src, group)
+
+            if (first.ndim != 1) or (count.ndim != 1):
+                record(
+                    "Index first / count are not 1D",
+                    first_shape=first.shape,
+                    count_shape=count.shape,
+                )
+                continue
+
+            if first.shape != count.shape:
+                record(
+                    "Index first & count have different number of entries",
+                    first_shape=first.shape,
+                    count_shape=count.shape,
+                )
+                continue
+
+            if first.shape != self.file.train_ids.shape:
+                record(
+                    "Index has wrong number of entries",
+                    index_shape=first.shape,
+                    trainids_shape=self.file.train_ids.shape,
+                )
+
+            check_index_contiguous(first, count, record)
 
 
 def check_index_contiguous(firsts, counts, record):
-- 
2.43.0


From 13247a58182435c2c20c4285568a4597449ab151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 22/55] fix: report parts of files which can't be checked as
 problems when validating

---
 karabo_data/validation.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 120e8b4..686635e 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -6,7 +6,7 @@ import numpy as np
 import os
 import sys
 
-from .reader import DataCollection, H5File, FileAccess
+from .reader import DataCollection, FileAccess
 from .run_files_map import RunFilesMap
 
 
@@ -39,9 +39,17 @@ class FileValidator:
     def run_checks(self):
         self.problems = []
         self.check_indices()
-        self.check_trainids()
+        self.attempt(self.check_trainids, dataset='INDEX/trainId')
         return self.problems
 
+    def attempt(self, check, *args, **kwargs):
+        # Parts of a file which are missing, damaged or can't be read are
+        # problems to report, along with any others in the file.
+        try:
+            check(*args)
+        except Exception as e:
+            self.record("Could not check data", error=repr(e), **kwargs)
+
     def record(self, msg, **kwargs):
         self.problems.append(dict(msg=msg, file=self.filename, **kwargs))
 
@@ -72,9 +80,9 @@ class FileValidator:
 
     def check_indices(self):
         for src in self.file.control_sources:
-            self.check_source_indices(src, 'CONTROL')
+            self.attempt(self.check_source_indices, src, 'CONTROL', source=src)
         for src in self.file.instrument_sources:
-            self.check_source_indices(src, 'INSTRUMENT')
+            self.attempt(self.check_source_indices, src, 'INSTRUMENT', source=src)
 
     def check_source_indices(self, src, category):
         src_groups = set()
@@ -239,7 +247,14 @@ def main(argv=None):
         validator = RunValidator(path)
     else:
         print("Checking file:", path)
-        validator = FileValidator(H5File(path).files[0])
+        try:
+            validator = FileValidator(FileAccess(path))
+        except Exception as e:
+            print("Validation failed!")
+            print(str(ValidationError(
+                [dict(msg="Could not open file", file=path, error=e)]
+            )))
+            return 1
 
     try:
         validator.validate()
-- 
2.43.0


From bdacb04606a1193238d0c5c7941bdd345ea55b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 23/55] fix: label the trains of an array with no entries

---
 karabo_data/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index aedced2..33f152e 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -735,9 +735,9 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
-        if dest_dim0:
-            coords = {'trainId': np.concatenate(chunks_trainids)}
+        if not chunks_trainids:
+            chunks_trainids.append(np.zeros(0, dtype=np.uint64))
+        coords = {'trainId': np.concatenate(chunks_trainids)}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
-- 
2.43.0


From a0ad406c39e1eaae13ab4eb8300c2dc497298c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 24/55] fix: get detector arrays when a module lacks some of
 the trains

---
 karabo_data/components.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..8621128 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -230,20 +230,21 @@ class MPxDetectorBase:
             firsts, counts = f.get_index(source, group)
 
             for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
+                # The file may not have all of the trains in this chunk
+                train_idxs = np.nonzero(
+                    (f.train_ids >= chunk_tids[0]) & (f.train_ids <= chunk_tids[-1])
+                )[0]
+                if train_idxs.size == 0:
                     # No overlap
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
+                first_train_idx, last_train_idx = train_idxs[0], train_idxs[-1]
                 chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
                 chunk_counts = counts[first_train_idx : last_train_idx + 1]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
+                    f.train_ids[first_train_idx : last_train_idx + 1],
                     chunk_counts.astype(np.intp),
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
-- 
2.43.0


From 9d757601ef3da719753dd628fd17fbff5ef71a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 25/55] fix: leave out detector modules with no files for the
 selected trains

---
 karabo_data/components.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 8621128..01a9468 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -95,7 +95,6 @@ class MPxDetectorBase:
 
         data = data.select([(src, '*') for src in source_to_modno])
         self.detector_name = detector_name
-        self.source_to_modno = source_to_modno
 
         # pandas' missing-data handling converts the data to floats if there
         # are any gaps - so fill them with 0s and convert back to uint64.
@@ -115,6 +114,12 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Some modules may have no files for any of the selected trains
+        self.source_to_modno = source_to_modno = {
+            s: m for (s, m) in source_to_modno.items()
+            if s in self.data.instrument_sources
+        }
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From cbddef8076006829faae0537cdcc6b49c929fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 26/55] fix: keep the modules axis in place when indexing
 stacked detector data

---
 karabo_data/stacking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..ea0d73d 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -194,8 +194,13 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Indexing with an integer removes that dimension
+        new_stack_axis = sum(
+            not isinstance(s, (int, np.integer))
+            for s in mod_slices[:self._stack_axis]
+        )
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=new_stack_axis)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From 16c76ad0347a7d415a3987d30431775103401182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 27/55] fix: fill in 0 for missing modules in stacked integer
 data by default

---
 karabo_data/stacking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index ea0d73d..183bf35 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -117,6 +117,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if dtype.kind in 'iub' and fillvalue != fillvalue:
+        fillvalue = 0  # Integers can't represent nan
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From 4851bb2941bd623ec0734417b689a106cbff3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 28/55] fix: refuse negative module numbers out of range in
 stacked detector data

---
 karabo_data/stacking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 183bf35..ac8e2a3 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -184,7 +184,7 @@ class StackView:
         try:
             mod_data = self._data[modno]
         except KeyError:
-            if modno >= self._nmodules:
+            if not (0 <= modno < self._nmodules):
                 raise IndexError(modno)
             mod_data = np.full(self._mod_shape, self._fillvalue, self.dtype)
             self._data[modno] = mod_data
-- 
2.43.0


From 79044af423a7030d5036f3691fa988dee9279fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 29/55] fix: show information about data with no trains

---
 karabo_data/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 33f152e..5e93396 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1083,11 +1083,14 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
-        span_txt = str(datetime.timedelta(seconds=span_sec))
+        if train_count:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
+            span_txt = str(datetime.timedelta(seconds=span_sec))
+        else:
+            first_train = last_train = span_txt = '-'
 
         detector_modules = {}
         for source in self.detector_sources:
-- 
2.43.0


From c814beb32ef142f0410d1cab270950e29954b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 30/55] fix: show only selected sources in the information
 about a train

---
 karabo_data/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 5e93396..d5d8d43 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1185,6 +1185,10 @@ class DataCollection:
         ctrl = set().union(*[f.control_sources for f in files])
         inst = set().union(*[f.instrument_sources for f in files])
 
+        # The files may contain more sources than are selected
+        ctrl &= self.control_sources
+        inst &= self.instrument_sources
+
         # disp
         print('Train [{}] information'.format(train_id))
         print('Devices')
-- 
2.43.0


From 388f3c107dde1aa1a47e57d1c135384ba5c13a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 31/55] fix: summarise files with several sources in lsxfel

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From f9b7a1f56de5b2870f758506873ff93eb0406ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 32/55] fix: describe files with names not matching the pattern
 for runs

---
 karabo_data/read_machinery.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 804dc40..5260e6e 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -178,9 +178,13 @@ class FilenameInfo:
     def __init__(self, path):
         self.basename = osp.basename(path)
         nameparts = self.basename[:-3].split('-')
-        assert len(nameparts) == 4, self.basename
-        rawcorr, runno, datasrc, segment = nameparts
-        m = re.match(r'([A-Z]+)(\d+)', datasrc)
+        if len(nameparts) == 4:
+            rawcorr, runno, datasrc, segment = nameparts
+            m = re.match(r'([A-Z]+)(\d+)', datasrc)
+        else:
+            # Not named like a file from a run, e.g. written by users
+            datasrc = self.basename
+            m = None
 
         if m and m.group(1) == 'DA':
             self.description = "Aggregated data"
@@ -193,7 +197,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From 1a776ea43b19d546ebe8290cc690341d1aecda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 33/55] fix: name directories given to lsxfel with a trailing
 slash

---
 karabo_data/lsxfel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..25a6012 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -59,7 +59,7 @@ def summarise_file(path):
 
 
 def describe_run(path):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
     print(basename, ": Run directory")
     print()
 
@@ -68,7 +68,7 @@ def describe_run(path):
 
 
 def summarise_run(path, indent=''):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
 
     # Accessing all the files in a run can be slow. To get the number of trains,
     # pick one set of segments (time slices of data from the same source).
@@ -144,7 +144,7 @@ def main(argv=None):
     else:
         exit_code = 0
         for path in paths:
-            basename = os.path.basename(path)
+            basename = os.path.basename(os.path.abspath(path))
 
             if os.path.isdir(path):
                 contents = os.listdir(path)
-- 
2.43.0


From d0f548b43bad1beb20a5cc83104ac4713356e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 34/55] fix: refuse negative pulse IDs and indices in lists

---
 karabo_data/components.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 01a9468..d590551 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -64,17 +64,18 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
+    # Check before converting: unsigned integers are never negative
     if (val < 0).any():
         if isinstance(pulses, by_id):
             raise ValueError("Pulse IDs cannot be negative")
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 66f3f4500b93b96f5aabc652cf0ed4cfe8682b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 35/55] fix: fill in 0 for missing frames of integer data in
 CXI files

---
 karabo_data/write_cxi.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/karabo_data/write_cxi.py b/karabo_data/write_cxi.py
index 048bc7e..16ddaf7 100644
--- a/karabo_data/write_cxi.py
+++ b/karabo_data/write_cxi.py
@@ -6,6 +6,11 @@ import numpy as np
 log = logging.getLogger(__name__)
 
 
+def _fill_value(dtype):
+    """The value for missing frames: there is no NaN among integers"""
+    return np.nan if np.issubdtype(dtype, np.floating) else 0
+
+
 class VirtualCXIWriter:
     """Machinery to write a CXI file containing virtual datasets.
 
@@ -200,19 +205,22 @@ class VirtualCXIWriter:
                 dgrp['data_gain'] = h5py.SoftLink('/entry_1/data_gain')
 
             data = dgrp.create_virtual_dataset(
-                'data', layouts['data'], fillvalue=np.nan
+                'data', layouts['data'],
+                fillvalue=_fill_value(layouts['data'].dtype)
             )
             data.attrs['axes'] = axes_s
 
             if 'gain' in layouts:
                 gain = dgrp.create_virtual_dataset(
-                    'gain', layouts['gain'], fillvalue=np.nan
+                    'gain', layouts['gain'],
+                    fillvalue=_fill_value(layouts['gain'].dtype)
                 )
                 gain.attrs['axes'] = axes_s
 
             if 'mask' in layouts:
                 mask = dgrp.create_virtual_dataset(
-                    'mask', layouts['mask'], fillvalue=np.nan
+                    'mask', layouts['mask'],
+                    fillvalue=_fill_value(layouts['mask'].dtype)
                 )
                 mask.attrs['axes'] = axes_s
 
-- 
2.43.0


From e42770a470202ef7fd4b1ac2579bcde3bc60ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 36/55] fix: give AGIPD pixels their size whatever the unit of
 quadrant positions

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..167f215 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From 6628dcc05945e5a353c13b676aa8bf5c07c65f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 37/55] fix: position pixels in interpolated detector images

---
 karabo_data/geometry2/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 167f215..287dfbb 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -801,12 +801,12 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
             tiles_data = np.split(mod_data, 8)
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
                 # We store (x, y, z), but numpy indexing, and hence affine_transform,
-                # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # work like [y, x]. Rearrange the numbers, in units of pixels:
+                fs_vec_yx = tile.fs_vec[:2][::-1] / self.pixel_size
+                ss_vec_yx = tile.ss_vec[:2][::-1] / self.pixel_size
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = tile.corner_pos[:2][::-1] / self.pixel_size + centre
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
@@ -814,7 +814,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                 # affine_transform takes a mapping from *output* to *input*.
                 # So we reverse the forward transformation.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                # Pixel n in each array is from n to n+1, so its centre is at n+0.5
+                offset = np.dot(transform, 0.5 - corner_pos_yx) - 0.5
 
                 affine_transform(
                     tile_data,
-- 
2.43.0


From 4a50dd91e1fdd06edb78d80980878fe186872504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 38/55] fix: assemble detector images of integers

---
 karabo_data/geometry2/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 287dfbb..8d4aecd 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -913,7 +913,10 @@ class SnappedGeometry:
         """Make an output array for self.position_modules()
         """
         shape = extra_shape + self.size_yx
-        return np.full(shape, np.nan, dtype=dtype)
+        if np.issubdtype(dtype, np.inexact):
+            return np.full(shape, np.nan, dtype=dtype)
+        else:  # Integers have no NaN
+            return np.zeros(shape, dtype=dtype)
 
     def position_modules(self, data, out=None):
         """Implementation for position_modules_fast
-- 
2.43.0


From ca400ebe9a07ddc98b8eee81298c98548ad7065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 39/55] fix: read and write coffset in metres in CrystFEL
 geometry files

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 8d4aecd..015985d 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # cnx & cny are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..4d3cb7c 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -73,7 +73,7 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        coffset=fragment.corner_pos[2],  # in metres, unlike the others
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From 0f8e47cb0c096709986e3689c0ad035f24d5917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 40/55] fix: write no exponents in directions in CrystFEL
 geometry files

---
 karabo_data/geometry2/crystfel_fmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index 4d3cb7c..116501d 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,11 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # CrystFEL doesn't accept exponents (e.g. 1e-05) in these
+    x, y, z = [np.format_float_positional(v, sign=True, trim='0') for v in vec]
+    s = '{}x {}y'.format(x, y)
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(z)
     return s
 
 
-- 
2.43.0


From 2865db075ae38d83dd84f18a59081f8c39690a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 41/55] fix: create QuickView with data

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..c85b46c 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
-- 
2.43.0


From 8391e6a6c2e913519de7d597f753fd2d990855a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 42/55] fix: set the position in QuickView

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index c85b46c..7615b78 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -63,7 +63,7 @@ class QuickView:
         if self._data is not None:
             if 0 <= pos < len(self):
                 self._current_index = pos
-                self.show()
+                self.display()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
-- 
2.43.0


From d84d60be82631c0711304fa11bb3d03bf8ce8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 43/55] fix: stop QuickView at the last image

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7615b78..b091821 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From 33ce13e3d580d035ea2e7c4cb38a48e0a2cfa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 44/55] fix: export CBF from files in data format 1.0

---
 karabo_data/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index b091821..d98dea2 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -135,7 +135,9 @@ def numpy_to_cbf(np_array, index=0, header=None):
 def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     """Conversion from HDF5 file to cbf binary image file"""
     tmpf = h5py.File(in_h5file, 'r')
-    paths = list(tmpf["METADATA/dataSourceId"])
+    metadata = tmpf["METADATA"]
+    # Data format 1.0 moved this into a subgroup
+    paths = list(metadata.get("dataSources", metadata)["dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
     cbf_out = numpy_to_cbf(images, index=index)
-- 
2.43.0


From 3073fe5115ac573d8028da42ac18eb476bdc05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 45/55] fix: write the header given when exporting CBF from a
 file

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index d98dea2..3b61648 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -140,6 +140,6 @@ def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     paths = list(metadata.get("dataSources", metadata)["dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From e80fa83d047e7e07f39044cb6a0ba63250b405f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 46/55] fix: use the unit given for tiles in the older LPD
 geometry

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..8ce32e6 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From cb1cff586b2990e36b32f944a893dcda32b66c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 47/55] fix: keep the geometry when the centre of an image is
 modified

---
 karabo_data/geometry2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 015985d..93177f4 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -941,7 +941,7 @@ class SnappedGeometry:
                 h, w = tile.pixel_dims
                 out[..., y : y + h, x : x + w] = tile.transform(tile_data)
 
-        return out, self.centre
+        return out, self.centre.copy()
 
     def _get_dimensions(self):
         """Calculate appropriate array dimensions for assembling data.
-- 
2.43.0


From 84ace2e91317ae8a5c40856bfcfbf38a97092a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 48/55] fix: refuse selections of unknown types

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index d5d8d43..379b38c 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -833,7 +833,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return dict(res)
 
-- 
2.43.0


From 93f5efa0771005cee8c1871fc7e1eb8f45390868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 49/55] fix: refuse virtual datasets of data with different
 types or shapes

---
 karabo_data/writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index db393ef..a0e8d30 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -135,6 +135,16 @@ class VirtualFileWriter(FileWriter):
         if not chunks:
             return None, None
 
+        # A virtual dataset has one shape & type: HDF5 would convert (& clip)
+        # the values from chunks of other types to those of the first one.
+        shapes = {c.dataset.shape[1:] for c in chunks}
+        if len(shapes) > 1:
+            raise Exception("Mismatched data shapes: {}".format(shapes))
+
+        dtypes = {c.dataset.dtype for c in chunks}
+        if len(dtypes) > 1:
+            raise Exception("Mismatched dtypes: {}".format(dtypes))
+
         # Create the layout, which will describe what data is where
         n_total = np.sum([c.counts.sum() for c in chunks])
         ds0 = chunks[0].dataset
-- 
2.43.0


From 900c548cb3dc8bd7285530721ceb05faa9c241f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 50/55] fix: refuse virtual CXI files of modules with different
 data types

---
 karabo_data/write_cxi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karabo_data/write_cxi.py b/karabo_data/write_cxi.py
index 16ddaf7..2f3d7d5 100644
--- a/karabo_data/write_cxi.py
+++ b/karabo_data/write_cxi.py
@@ -159,6 +159,12 @@ class VirtualCXIWriter:
 
             for source, modno in self.detdata.source_to_modno.items():
                 for chunk in self.data._find_data_chunks(source, key):
+                    if chunk.counts.any() and chunk.dataset.dtype != layout.dtype:
+                        # HDF5 would convert (& clip) the values when reading
+                        raise Exception("Mismatched dtypes for {}: {}".format(
+                            key, {layout.dtype, chunk.dataset.dtype}
+                        ))
+
                     vsrc = h5py.VirtualSource(chunk.dataset)
                     self._map_chunk(chunk, vsrc, layout, modno, have_data)
 
-- 
2.43.0


From 08858e627d873f1d77a79e25f59e0238e9832df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 51/55] fix: compare AGIPD geometries in pixels, as the arrows
 and margins are

---
 karabo_data/geometry2/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 93177f4..a3936fc 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -722,23 +722,24 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         arrows = []
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                # Drop the Z dimension & convert to pixels
+                corners = fragment.corners()[:, :2] / self.pixel_size
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() / self.pixel_size
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() / self.pixel_size
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] / self.pixel_size
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From 70786b59fbbd17403215f730fa4c94ff9deaa792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 52/55] fix: read series of pulse data also where trains have
 one pulse

---
 karabo_data/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 379b38c..96b1890 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -568,7 +568,10 @@ class DataCollection:
 
                 index = pd.Index(trainids, name='trainId')
                 data = f.file[data_path][:]
-                if not index.is_unique:
+                # A train may also have just one pulse
+                if not index.is_unique or (
+                    data.ndim == 2 and 'pulseId' in f.file['/INSTRUMENT/{}/{}'.format(source, group)]
+                ):
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
                     pulse_id = pulse_id[: len(index), 0]
                     index = pd.MultiIndex.from_arrays(
-- 
2.43.0


From 0f2194dd335ed7c42a6aaecc364707db021d0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 53/55] fix: pack each message on its own

msgpack_numpy.encode() is Python code, so other threads can run while a
message is being packed. It is used for protocol 1.0, and for any Packer
after msgpack_numpy.patch(), which importing karabo_bridge does. With one
Packer for the streamer, items fed by several threads at once ended up in
each other's messages.
---
 karabo_data/export.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 7eb64b8..0ac9ab9 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -11,6 +11,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 """
 
 from argparse import ArgumentParser
+from functools import partial
 import os.path as osp
 from queue import Empty, Queue
 from threading import Event, Thread
@@ -104,16 +105,19 @@ class ZMQStreamer:
     def __init__(self, port, maxlen=10, protocol_version='2.2', dummy_timestamps=False):
         self._context = zmq.Context()
         self.port = port
+        # Use packb, which makes a new Packer for each message. Threads can't
+        # share a Packer: msgpack_numpy (used here for protocol 1.0, or for all
+        # Packers after msgpack_numpy.patch()) lets others run while it packs.
         if protocol_version not in {'1.0', '2.2'}:
             raise ValueError("Unknown protocol version %r" % protocol_version)
         elif protocol_version == '1.0':
             import msgpack_numpy
 
-            self.pack = msgpack.Packer(
-                use_bin_type=True, default=msgpack_numpy.encode
-            ).pack
+            self.pack = partial(
+                msgpack.packb, use_bin_type=True, default=msgpack_numpy.encode
+            )
         else:
-            self.pack = msgpack.Packer(use_bin_type=True).pack
+            self.pack = partial(msgpack.packb, use_bin_type=True)
         self.protocol_version = protocol_version
         self.dummy_timestamps = dummy_timestamps
         self._buffer = Queue(maxsize=maxlen)
-- 
2.43.0


From bdd1f0499bc64eb5f2d002c808aee82cab9f97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 54/55] fix: refuse to write data over the files it comes from

The new file is created before the data is read, so run.write() & the like
destroyed a data file given as destination, unless it happened to be open.
---
 karabo_data/writer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index a0e8d30..5d3f5e5 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -1,5 +1,13 @@
 import h5py
 import numpy as np
+import os.path as osp
+
+
+def _same_file(path, other):
+    try:
+        return osp.samefile(path, other)
+    except (OSError, TypeError):
+        return False  # At least one of them doesn't exist (yet)
 
 
 class FileWriter:
@@ -10,6 +18,10 @@ class FileWriter:
     """
 
     def __init__(self, path, data):
+        # The file is overwritten before the data is read
+        if any(_same_file(path, f.filename) for f in data.files):
+            raise ValueError("Can't write data from {} to itself".format(path))
+
         self.file = h5py.File(path, 'w')
         self.data = data
         self.indexes = {}  # {path: (first, count)}
-- 
2.43.0


From 93deb5934be97df255af091ac90e65996962dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 55/55] fix: list runs without data files in lsxfel

One of them stopped the listing of a whole proposal with an error.
---
 karabo_data/lsxfel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 25a6012..15c83ec 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -85,7 +85,8 @@ def summarise_run(path, indent=''):
                 n_other += 1
 
     if len(segment_sequences) < 1:
-        raise ValueError("No data files recognised in %s" % path)
+        print("{}{} : No data files recognised".format(indent, basename))
+        return
 
     # Take the shortest group of segments to make reading quicker
     first_group = sorted(segment_sequences.values(), key=len)[0]
-- 
2.43.0

