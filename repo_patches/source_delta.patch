From 05c271e5e59cb3682f5f90242702dc52d63fa576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 01/50] fix: reject an item whose number of elements differs
 from the recorded data format

BinaryWriter pairs the leaves of an item with the format inferred from the first
item using zip, which silently dropped extra leaves (or wrote a header that the
reader cannot parse when leaves are missing).
---
 src/litdata/streaming/writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..2488439 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -199,6 +199,12 @@ class BinaryWriter:
     ) -> None:
         """Serialize a given item and append its size and bytes to the sizes and data array."""
         assert data_format
+        if len(item) != len(data_format):
+            # `zip` would silently drop the extra elements (or leave the item without some of its fields)
+            raise ValueError(
+                f"The provided item has {len(item)} elements but the previous items have {len(data_format)}."
+                f" Found the following data format: {data_format}."
+            )
         for element, item_format in zip(item, data_format):
             serializer = self._serializers_extra[item_format]
             serialized_item, _ = serializer.serialize(element)
-- 
2.43.0


From 7da638f6f909a78403cea25135c0bcbc2ea9af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 02/50] fix: reject an item that the recorded data format
 cannot decode

The dtype of one-dimensional tensors and arrays is stored once, in the data format.
A later item with another dtype or rank was written with its own layout and read
back with the recorded one, returning corrupted values.
---
 src/litdata/streaming/writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2488439..3516f06 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -207,7 +207,15 @@ class BinaryWriter:
             )
         for element, item_format in zip(item, data_format):
             serializer = self._serializers_extra[item_format]
-            serialized_item, _ = serializer.serialize(element)
+            serialized_item, name = serializer.serialize(element)
+            # When the decoder is configured from the recorded format (e.g its dtype), it can't decode anything else.
+            if type(serializer).setup is not Serializer.setup and (
+                (name and name != item_format) or not serializer.can_serialize(element)
+            ):
+                raise ValueError(
+                    f"The provided item doesn't match the data format of the previous items: expected `{item_format}`"
+                    f" but found `{name}`."
+                )
             data.append(serialized_item)
             sizes.append(serializer.size if hasattr(serializer, "size") else len(serialized_item))
 
-- 
2.43.0


From ae53f2d02566540b78c7408660dfba41b326751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:09 +0000
Subject: [PATCH 03/50] fix: PyTreeLoader.close forgets the chunk it had opened

---
 src/litdata/streaming/item_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..e908d6d 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -301,6 +301,8 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+        # the next load has to wait for the chunk and to open it again, even when it is the same one
+        self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From 68e48d70d503304002e039e0493767fa3d61dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 04/50] fix: merge_datasets rejects datasets with another
 structure, encryption or item loader

---
 src/litdata/processing/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..8f1f2cd 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -627,6 +627,10 @@ def merge_datasets(
         if input_dirs_file_content[0]["config"]["compression"] != input_dir_file_content["config"]["compression"]:  # type: ignore
             raise ValueError("Your are trying to merge datasets with different compression configuration.")
 
+        for key in ("data_spec", "encryption", "item_loader"):
+            if input_dirs_file_content[0]["config"].get(key) != input_dir_file_content["config"].get(key):  # type: ignore
+                raise ValueError(f"Your are trying to merge datasets with different {key} configuration.")
+
     chunks = []
     copy_infos: List[CopyInfo] = []
     counter = 0
-- 
2.43.0


From 9dd3e812cf9e696e9a6624a7b8272ce04b262799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 05/50] fix: multi-node append keeps chunk names distinct and
 lists the existing chunks once

---
 src/litdata/processing/data_processor.py | 4 +++-
 src/litdata/processing/functions.py      | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..39853d3 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -904,7 +904,9 @@ class DataChunkRecipe(DataRecipe):
 
         merge_cache = Cache(cache_dir, chunk_bytes=1)
         node_rank = _get_node_rank()
-        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, getattr(self, "existing_index", None))
+        # the index being appended to is added by a single node, otherwise its chunks would be there once per node
+        existing_index = getattr(self, "existing_index", None) if node_rank == 0 else None
+        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, existing_index)
 
         self._upload_index(output_dir, cache_dir, num_nodes, node_rank)
 
diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 8f1f2cd..12ab5a0 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -30,7 +30,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -482,8 +482,9 @@ def optimize(
         if existing_index_file_content is not None:
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
+                rank -= _get_node_rank() * num_workers  # the chunk names hold the rank among the workers of all nodes
 
-                if rank < num_workers and state_dict[rank] <= index:
+                if 0 <= rank < num_workers and state_dict[rank] <= index:
                     state_dict[rank] = index + 1  # +1 because we want to start from the next index
 
         data_processor = DataProcessor(
-- 
2.43.0


From 90215677fbd44d26d15d94e668d67e0b6a0bad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 06/50] fix: a failed upload fails the run instead of losing
 the chunk

---
 src/litdata/processing/data_processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 39853d3..d9bfcb3 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -268,7 +268,7 @@ def _upload_fn(
                     output_filepath,
                 )
             except Exception as e:
-                print(e)
+                raise RuntimeError(f"Failed uploading {local_filepath}.") from e
 
         elif output_dir.path:
             output_filepath = output_dir.path
@@ -566,6 +566,9 @@ class BaseWorker:
                         for uploader in self.uploaders:
                             uploader.join()
 
+                        if any(uploader.exitcode for uploader in self.uploaders):
+                            raise RuntimeError("An uploader failed, the files it was given weren't all uploaded.")
+
                     if self.remove:
                         assert self.remover
                         self.remove_queue.put(None)
-- 
2.43.0


From dfc82d4de79cd462d998582c81a81bbfad7aea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 07/50] fix: a chunk still being written is not preloaded

TokensLoader.pre_load_chunk marked any existing file as ready, so load_item_from_chunk skipped its wait and read
a memory map of a partial file. ParquetLoader.pre_load_chunk parsed whatever part of the file was there.
---
 src/litdata/streaming/item_loader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index e908d6d..07e6f8a 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -451,10 +451,10 @@ class TokensLoader(BaseItemLoader):
 
     def pre_load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
         # This is called within the prepare chunks thread, so we overlap data loading with data reading.
-        if chunk_filepath not in self._chunk_filepaths:
+        # A chunk another process is still writing is left to `load_item_from_chunk`, which waits until it is complete.
+        filesize_bytes = self._chunks[chunk_index]["chunk_bytes"]
+        if os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes:
             self._chunk_filepaths[chunk_filepath] = True
-
-        if os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > 0:
             self._load_chunk(chunk_index, chunk_filepath)
 
     def load_item_from_chunk(
@@ -645,7 +645,10 @@ class ParquetLoader(BaseItemLoader):
 
         import polars as pl
 
-        if chunk_index not in self._df and os.path.exists(chunk_filepath):
+        # A chunk another process is still writing is left to `load_item_from_chunk`, which waits until it is complete.
+        filesize_bytes = self._chunks[chunk_index]["chunk_bytes"]
+        exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        if chunk_index not in self._df and exists:
             self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
 
     def load_item_from_chunk(
-- 
2.43.0


From 7c3303970dda6544a193d7e7fe1301f26131dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 08/50] fix: a decompressed chunk appears under its name only
 when complete

try_decompress removed the downloaded file and then wrote the decompressed one in place: a process killed in between left a
partial chunk that no later run repaired.
---
 src/litdata/streaming/config.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 3740c9b..1ca50ea 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -11,6 +11,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import contextlib
 import logging
 import os
 from collections import defaultdict
@@ -158,14 +159,19 @@ class ChunksConfig:
         with open(local_chunkpath, "rb") as f:
             data = f.read()
 
-        # delete the files only if they were downloaded
-        if self._downloader is not None:
-            os.remove(local_chunkpath)
-
         data = self._compressor.decompress(data)
 
-        with open(target_local_chunkpath, "wb") as f:
+        # make an atomic operation to be safe
+        temp_file_path = f"{target_local_chunkpath}.{os.getpid()}.tmp"
+        with open(temp_file_path, "wb") as f:
             f.write(data)
+        os.rename(temp_file_path, target_local_chunkpath)
+
+        # delete the files only if they were downloaded
+        if self._downloader is not None:
+            # another process can have decompressed and removed it in the meantime
+            with contextlib.suppress(FileNotFoundError):
+                os.remove(local_chunkpath)
 
     @property
     def intervals(self) -> List[Interval]:
-- 
2.43.0


From 478a6b0f6d99efa0232b7c1636da212588beb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 09/50] fix: a chunk that is already decompressed is not
 downloaded again

The second worker asking for a compressed chunk looked only for the compressed file, which the first one had removed: it downloaded
the chunk once more and left the compressed file behind in the cache.
---
 src/litdata/streaming/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 1ca50ea..9a29325 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -128,7 +128,8 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
-        if os.path.exists(local_chunkpath):
+        # the compressed file is removed once it has been decompressed
+        if os.path.exists(local_chunkpath) or os.path.exists(local_chunkpath.replace(f".{self._compressor_name}", "")):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
-- 
2.43.0


From 1805d593f0995f77c81c7903fd1ef0877aa3d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 10/50] fix: reject an item whose structure differs from the
 first one

The reader rebuilds every item with the recorded structure, so a later dictionary with its keys in another order was read back with
its values swapped.
---
 src/litdata/streaming/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 3516f06..2f3b1ee 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -176,6 +176,11 @@ class BinaryWriter:
             self._data_format = data_format
             self._data_spec = data_spec
         else:
+            if data_spec != self._data_spec:
+                # the reader rebuilds every item with the structure of the first one
+                raise ValueError(
+                    f"The provided item has the structure {data_spec} but the previous items have {self._data_spec}."
+                )
             # tiny optimization to avoid looping over all the data format
             self._serialize_with_data_format(flattened, sizes, data, self._data_format)
 
-- 
2.43.0


From 18a3e896806dbd4aeafee3c0e9f85cc53dc5a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 11/50] fix: a failed Azure download leaves no partial chunk
 behind

The blob was streamed into the chunk's final name: after a failure the empty or partial file stayed there, and a later run took it for
the chunk and waited for it.
---
 src/litdata/streaming/downloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 3f10499..875f53d 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -222,9 +222,12 @@ class AzureDownloader(Downloader):
 
             service = BlobServiceClient(**self._storage_options)
             blob_client = service.get_blob_client(container=obj.netloc, blob=obj.path.lstrip("/"))
-            with open(local_filepath, "wb") as download_file:
+            # a failed download must not leave a partial file under the final name
+            temp_file_path = local_filepath + ".tmp"
+            with open(temp_file_path, "wb") as download_file:
                 blob_data = blob_client.download_blob()
                 blob_data.readinto(download_file)
+            os.rename(temp_file_path, local_filepath)
 
 
 class LocalDownloader(Downloader):
-- 
2.43.0


From dc88aad9c0c1a189baaf5c09d766cc2a92acc387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 12/50] fix: a worker that had consumed all its chunks can be
 resumed

---
 src/litdata/streaming/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..9c294e1 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -368,6 +368,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        if self.worker_next_chunk_index >= self.num_chunks:
+            # this worker had already consumed all its chunks
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
-- 
2.43.0


From 6f194aebc8b973b17cdd734ae09124a479a0f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 13/50] fix: a saved position of another world size or of other
 selected samples is refused

---
 src/litdata/streaming/dataset.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 9c294e1..178c9ff 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -619,6 +619,34 @@ class StreamingDataset(IterableDataset):
             state["drop_last"] = self.drop_last
             logger.warning(f"Overriding state drop_last {state['drop_last']} to {self.drop_last}.")
 
+        if state["world_size"] != self.distributed_env.world_size:
+            if not self._force_override_state_dict:
+                raise ValueError(
+                    "The provided `world_size` state doesn't match the current one. "
+                    f"Found `{self.distributed_env.world_size}` instead of `{state['world_size']}`."
+                )
+            logger.warning(
+                f"Overriding state world_size {state['world_size']} to {self.distributed_env.world_size}, "
+                "this may lead to repeated or skipped datapoints within an episode."
+            )
+            state["world_size"] = self.distributed_env.world_size
+
+        # the samples selected from the chunks by `subsample` or by `train_test_split`
+        if state["subsampled_files"] != self.subsampled_files or [
+            tuple(region) for region in state["region_of_interest"]
+        ] != [tuple(region) for region in self.region_of_interest]:
+            if not self._force_override_state_dict:
+                raise ValueError(
+                    "The provided `subsampled_files` and `region_of_interest` state don't match the current ones. "
+                    "The state was saved by a dataset with other samples."
+                )
+            logger.warning(
+                "Overriding state subsampled_files and region_of_interest, "
+                "this may lead to repeated or skipped datapoints within an episode."
+            )
+            state["subsampled_files"] = self.subsampled_files
+            state["region_of_interest"] = self.region_of_interest
+
         if state["num_samples_yielded"] > len(self):
             raise ValueError(
                 "The provided `num_samples_yielded` state is greater than the dataset length. "
-- 
2.43.0


From 6a08e9fd693c5ecd61b3b2c578b67347c17118df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 14/50] fix: an overridden seed or drop_last takes effect when
 resuming

---
 src/litdata/streaming/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 178c9ff..c6b40b6 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -281,6 +281,8 @@ class StreamingDataset(IterableDataset):
         # Handle restart
         if self._state_dict:
             self._validate_state_dict()
+            # the validation may have overridden the seed or drop_last of the state
+            self.shuffler = self._create_shuffler(self.cache)
             state: Dict[str, Any] = self._state_dict
             self.current_epoch = state["current_epoch"]
 
-- 
2.43.0


From 0eec66ecfd8c426c5455148b4948ee9153c8d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 15/50] fix: storage_options reach every access to the storage
 when indexing and reading the index

---
 src/litdata/streaming/dataset.py | 5 +++++
 src/litdata/utilities/parquet.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index c6b40b6..dc9c733 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -191,6 +191,7 @@ class StreamingDataset(IterableDataset):
         self.batch_size: int = 1
         self._encryption = encryption
         self.storage_options = storage_options
+        self.index_path = index_path
         self.max_pre_download = max_pre_download
 
     def set_shuffle(self, shuffle: bool) -> None:
@@ -215,6 +216,8 @@ class StreamingDataset(IterableDataset):
             cache_path = _try_create_cache_dir(
                 input_dir=self.input_dir.path if self.input_dir.path else self.input_dir.url,
                 cache_dir=self.cache_dir.path,
+                storage_options=self.storage_options,
+                index_path=self.index_path,
             )
             if cache_path is not None:
                 self.input_dir.path = cache_path
@@ -554,6 +557,8 @@ class StreamingDataset(IterableDataset):
             cache_path = _try_create_cache_dir(
                 input_dir=state["input_dir_path"] if state["input_dir_path"] else state["input_dir_url"],
                 cache_dir=state.get("cache_dir_path"),
+                storage_options=self.storage_options,
+                index_path=self.index_path,
             )
             if cache_path != self.input_dir.path:
                 if not self._force_override_state_dict:
diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 01bfbf2..192be2d 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -144,7 +144,7 @@ class CloudParquetDir(ParquetDir):
         for provider in _CLOUD_PROVIDER:
             if self.dir.url.startswith(provider):
                 # Initialize the cloud filesystem
-                self.fs = fsspec.filesystem(provider, *self.storage_options)
+                self.fs = fsspec.filesystem(provider, **(self.storage_options or {}))
                 print(f"using provider: {provider}")
                 break
 
@@ -244,7 +244,7 @@ class HFParquetDir(ParquetDir):
         # List all files and directories in the top-level of the specified directory
         from huggingface_hub import HfFileSystem
 
-        self.fs = HfFileSystem()
+        self.fs = HfFileSystem(**(self.storage_options or {}))
 
         for _f in self.fs.ls(self.dir.url, detail=True):
             if isinstance(_f, dict) and _f["name"].endswith(".parquet"):
-- 
2.43.0


From d0051f8d1bb4088ebfb34167f5f7d24d9a980049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 16/50] fix: the length of a combined dataset keeps its batch
 size and number of workers

---
 src/litdata/streaming/combined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..2842fbe 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -113,7 +113,7 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        return self.get_len(self.num_workers, self.batch_size if self.batch_size else 1)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -147,6 +147,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers or 1
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
-- 
2.43.0


From ba77c5f7f9d453e4ca0d2f34ab2cb15446ea1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 17/50] fix: resuming a combined dataset replays the choice of
 dataset per batch

---
 src/litdata/streaming/combined.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 2842fbe..e087dfe 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -252,10 +252,6 @@ class _CombinedDatasetIterator(Iterator):
 
         if num_samples_yielded is not None:
             self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
 
         self._use_streaming_dataloader = use_streaming_dataloader
         self._is_done = False
@@ -266,6 +262,11 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            # replay the choice of dataset of the samples already yielded
+            for _ in range(sum(num_samples_yielded)):
+                self._get_dataset_index()
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
-- 
2.43.0


From 5f83c2375062033c5d9cd99413d40ddb587ef2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 18/50] fix: the length of a cache counts the samples of the
 selected regions

The configuration of chunks reported the end of the last chunk as its length, counting
samples outside of the region of interest of the chunks.
---
 src/litdata/streaming/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 9a29325..6a141b4 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -81,7 +81,7 @@ class ChunksConfig:
         assert self._chunks is not None
         self._item_loader.setup(self._config, self._chunks, serializers, region_of_interest)
         self._intervals = self._item_loader.generate_intervals()
-        self._length = self._intervals[-1][-1] if len(self._intervals) > 0 else 0
+        self._length = sum(interval[2] - interval[1] for interval in self._intervals)
         self._downloader = None
 
         if remote_dir:
-- 
2.43.0


From faea7d223101268e852483a0301f0da61a69e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 19/50] fix: nodes after the first look up the shared chunks of
 their own workers

---
 src/litdata/streaming/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index dc9c733..5c7b94c 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -310,7 +310,7 @@ class StreamingDataset(IterableDataset):
             node_size = self.distributed_env.world_size // self.distributed_env.num_nodes
             first_rank_this_node = (self.distributed_env.global_rank // node_size) * node_size
             num_workers_per_node = node_size * self.num_workers
-            worker_start = first_rank_this_node * num_workers_per_node
+            worker_start = first_rank_this_node * self.num_workers
             worker_end = worker_start + num_workers_per_node
             local_rank = self.distributed_env.global_rank % node_size
 
-- 
2.43.0


From 91fca59c7f3260ae459652a40eb6fcc6ae7e5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 20/50] fix: a combined dataset forgets the loaded counters
 when an epoch starts afresh

---
 src/litdata/streaming/combined.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index e087dfe..3283448 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -158,6 +158,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
-- 
2.43.0


From 5a52af16f866e3ba607a88bf75f18b1f52959ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 21/50] fix: a checkpoint isn't uploaded before the chunks it
 names

---
 src/litdata/processing/data_processor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index d9bfcb3..b2d1ccb 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -645,7 +645,11 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
-        self.to_upload_queues[self._counter % self.num_uploaders].put(data)
+        self.to_upload_queues[self._get_uploader_index(self._counter)].put(data)
+
+    def _get_uploader_index(self, index: int) -> int:
+        # A checkpoint mustn't be uploaded before the chunks it names, so a single uploader takes all of them, in order.
+        return 0 if self.use_checkpoint else index % self.num_uploaders
 
     def _collect_paths(self) -> None:
         if self.no_downloaders:
@@ -784,7 +788,7 @@ class BaseWorker:
         if chunks_filepaths and len(self.to_upload_queues):
             for i, chunk_filepath in enumerate(chunks_filepaths):
                 if isinstance(chunk_filepath, str) and os.path.exists(chunk_filepath):
-                    self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
+                    self.to_upload_queues[self._get_uploader_index(i)].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
             checkpoint_filepath = self.cache.save_checkpoint()
-- 
2.43.0


From fd28ac3e829b992d40377938176fa259bd6eccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 22/50] fix: with checkpoints the items of a worker are
 processed in order

---
 src/litdata/processing/data_processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index b2d1ccb..e16b0c2 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -480,7 +480,8 @@ class BaseWorker:
         self.output_dir = output_dir
         self.items = items
         self.num_items = len(self.items)
-        self.num_downloaders = num_downloaders
+        # A checkpoint counts the first items as done, so they have to be processed in order, i.e by a single downloader.
+        self.num_downloaders = 1 if use_checkpoint else num_downloaders
         self.num_uploaders = num_uploaders
         self.remove = remove
         self.reader = reader
-- 
2.43.0


From f1a7a63f41597d6999b1dbea322e748703d98532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 23/50] fix: a resumed worker with nothing left to write keeps
 the format of its chunks

---
 src/litdata/processing/data_processor.py | 8 ++++++++
 src/litdata/streaming/writer.py          | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index e16b0c2..1a47629 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -470,6 +470,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -505,6 +506,7 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -636,6 +638,7 @@ class BaseWorker:
 
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
             self.cache._writer._chunk_index += self.checkpoint_next_index
+            self.cache._writer._checkpoint_config = self.checkpoint_config
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
         if not data or (self.output_dir.url if self.output_dir.url else self.output_dir.path) is None:
@@ -1082,6 +1085,7 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_configs: Optional[List[Optional[Dict[str, Any]]]] = None
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1309,6 +1313,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
             )
             worker.start()
             workers.append(worker)
@@ -1419,6 +1424,7 @@ class DataProcessor:
 
         self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_configs = [None for _ in range(self.num_workers)]
 
         if self.output_dir.url is None:
             assert self.output_dir.path
@@ -1453,6 +1459,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint.get("config")
             return
 
         obj = parse.urlparse(self.output_dir.url)
@@ -1497,6 +1504,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint.get("config")
         return
 
 
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2f3b1ee..317114b 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -116,6 +116,8 @@ class BinaryWriter:
         self._per_sample_num_bytes = 0
         self._per_sample_num_items = 0
         self.last_checkpoint_chunk_info: List[Dict[str, Any]] = []
+        # the config of the chunks loaded from a checkpoint
+        self._checkpoint_config: Optional[Dict[str, Any]] = None
 
     @property
     def filled(self) -> bool:
@@ -146,7 +148,7 @@ class BinaryWriter:
 
     def get_config(self) -> Dict[str, Any]:
         """Returns the config of the writer."""
-        return {
+        config = {
             "compression": self._compression,
             "chunk_size": self._chunk_size,
             "chunk_bytes": self._chunk_bytes,
@@ -155,6 +157,11 @@ class BinaryWriter:
             "encryption": self._encryption.state_dict() if self._encryption else None,
             "item_loader": self._item_loader.__class__.__name__,
         }
+        if self._data_format is None and self._checkpoint_config is not None:
+            # every chunk so far comes from the checkpoint, so only the checkpoint knows their format
+            config["data_format"] = self._checkpoint_config["data_format"]
+            config["data_spec"] = self._checkpoint_config["data_spec"]
+        return config
 
     def serialize(self, items: Any) -> Tuple[bytes, Optional[int]]:
         """Serialize a dictionary into its binary format."""
-- 
2.43.0


From e7632efe2e0cf09c98102a6cfa6c269542363c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 24/50] fix: a checkpoint made with another configuration isn't
 resumed

---
 src/litdata/processing/data_processor.py | 2 ++
 src/litdata/streaming/writer.py          | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1a47629..6e041b3 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -639,6 +639,8 @@ class BaseWorker:
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
             self.cache._writer._chunk_index += self.checkpoint_next_index
             self.cache._writer._checkpoint_config = self.checkpoint_config
+            if self.checkpoint_config is not None and self.cache._writer.get_config() != self.checkpoint_config:
+                raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
         if not data or (self.output_dir.url if self.output_dir.url else self.output_dir.path) is None:
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 317114b..50f0dc1 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -177,6 +177,15 @@ class BinaryWriter:
             for item in flattened:
                 data_format.append(self._serialize(item, sizes, data))
 
+            if self._checkpoint_config is not None and (
+                self._should_raise(data_format, self._checkpoint_config["data_format"])
+                or treespec_dumps(data_spec) != self._checkpoint_config["data_spec"]
+            ):
+                raise ValueError(
+                    f"The provided item has the data format {data_format} but the items of the checkpoint have"
+                    f" {self._checkpoint_config['data_format']}."
+                )
+
             worker_rank = get_worker_rank()
             if worker_rank is not None:
                 print(f"Rank {worker_rank} inferred the following `{data_format}` data format.")
-- 
2.43.0


From 1cabbc74b82c2cc67a759455567d4d1364716cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 25/50] fix: failing to look for an index doesn't delete the
 dataset at a remote location

---
 src/litdata/streaming/resolver.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..f27c7ae 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -317,14 +317,11 @@ def _assert_dir_has_index_file(
     if is_empty:
         return
 
-    # Check the index file exists
-    try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
-    except Exception:
-        has_index_file = False
-
-    if has_index_file and mode is None:
+    # Check the index file exists. Failing to tell isn't taken for its absence.
+    has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
+
+    # Only the data of an interrupted run is kept without being asked, to be resumed from its checkpoints.
+    if mode is None and (has_index_file or not use_checkpoint):
         raise RuntimeError(
             f"The provided output_dir `{output_dir.path}` already contains an optimized immutable datasets."
             "\n HINT: Did you consider changing the `output_dir` with your own versioning as a suffix?"
@@ -332,7 +329,7 @@ def _assert_dir_has_index_file(
         )
 
     # delete all the files (including the index file in overwrite mode)
-    if mode == "overwrite" or (mode is None and not use_checkpoint):
+    if mode == "overwrite":
         fs_provider.delete_file_or_directory(output_dir.url)
 
 
-- 
2.43.0


From 5d9269e2bbc2cdfe1d414e72c45356b0dc9fc9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 26/50] fix: failing to read the index of a dataset isn't taken
 for its absence

---
 src/litdata/processing/utilities.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/litdata/processing/utilities.py b/src/litdata/processing/utilities.py
index 8788fd6..bf86ab1 100644
--- a/src/litdata/processing/utilities.py
+++ b/src/litdata/processing/utilities.py
@@ -225,21 +225,21 @@ def read_index_file_content(output_dir: Dir, storage_options: Dict[str, Any] = {
 
         prefix = output_dir.url.rstrip("/") + "/"
 
-        # Check the index file exists
-        try:
-            # Create a temporary file
-            with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as temp_file:
-                temp_file_name = temp_file.name
-                fs_provider.download_file(os.path.join(prefix, _INDEX_FILENAME), temp_file_name)
-            # Read data from the temporary file
-            with open(temp_file_name) as temp_file:
-                data = json.load(temp_file)
-            # Delete the temporary file
-            os.remove(temp_file_name)
-            return data
-        except Exception:
+        # Check the index file exists. Failing to read it isn't taken for its absence: the dataset would be overwritten.
+        if not fs_provider.exists(os.path.join(prefix, _INDEX_FILENAME)):
             return None
 
+        # Create a temporary file
+        with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as temp_file:
+            temp_file_name = temp_file.name
+            fs_provider.download_file(os.path.join(prefix, _INDEX_FILENAME), temp_file_name)
+        # Read data from the temporary file
+        with open(temp_file_name) as temp_file:
+            data = json.load(temp_file)
+        # Delete the temporary file
+        os.remove(temp_file_name)
+        return data
+
 
 def extract_rank_and_index_from_filename(chunk_filename: str) -> Tuple[int, int]:
     """Extract the rank and index from the filename.
-- 
2.43.0


From ae14315979c54c4cfff74601f18b921a74568a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 27/50] fix: error_when_not_empty applies to local directories

---
 src/litdata/streaming/resolver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index f27c7ae..eed91e3 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -236,16 +236,17 @@ def _assert_dir_is_empty(
         raise ValueError("The provided output_dir isn't a `Dir` Object.")
 
     if output_dir.url is None:
-        return
-
-    obj = parse.urlparse(output_dir.url)
+        # this is a local directory
+        is_empty = output_dir.path is None or not os.path.isdir(output_dir.path) or not os.listdir(output_dir.path)
+    else:
+        obj = parse.urlparse(output_dir.url)
 
-    if obj.scheme not in _SUPPORTED_PROVIDERS:
-        not_supported_provider(output_dir.url)
+        if obj.scheme not in _SUPPORTED_PROVIDERS:
+            not_supported_provider(output_dir.url)
 
-    fs_provider = _get_fs_provider(output_dir.url, storage_options)
+        fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
-    is_empty = fs_provider.is_empty(output_dir.url)
+        is_empty = fs_provider.is_empty(output_dir.url)
 
     # We aren't allowing to add more data
     # TODO: Add support for `append` and `overwrite`.
-- 
2.43.0


From ca85ba37c5625f3d0b0fe8c243e87f46a7b425f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 28/50] fix: only objects inside of a remote directory are
 deleted with it

---
 src/litdata/streaming/fs_provider.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..3f345df 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -115,7 +115,8 @@ class GCPFsProvider(FsProvider):
         # if it's a single file, only one will match the prefix
         blobs = bucket.list_blobs(prefix=blob_path)
         for blob in blobs:
-            blob.delete()
+            if _is_inside(blob.name, blob_path):
+                blob.delete()
 
     def exists(self, path: str) -> bool:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
@@ -129,7 +130,7 @@ class GCPFsProvider(FsProvider):
         # List blobs with the given prefix
         blobs = bucket.list_blobs(prefix=blob_path)
         # If no blobs are found, it's considered empty
-        return not any(blobs)
+        return not any(_is_inside(blob.name, blob_path) for blob in blobs)
 
 
 class S3FsProvider(FsProvider):
@@ -196,7 +197,8 @@ class S3FsProvider(FsProvider):
         # Check if objects exist
         if "Contents" in objects:
             for obj in objects["Contents"]:
-                self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+                if _is_inside(obj["Key"], blob_path):
+                    self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
 
     def exists(self, path: str) -> bool:
         import botocore
@@ -224,6 +226,15 @@ class S3FsProvider(FsProvider):
         return not objects["KeyCount"] > 0
 
 
+def _is_inside(name: str, path: str) -> bool:
+    """Whether an object is the given file, or is within the given directory.
+
+    The objects listed by prefix are also those whose names only start alike (e.g `data-v2/...` for `data`).
+
+    """
+    return not path or name == path or name.startswith(path.rstrip("/") + "/")
+
+
 def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tuple[str, str]:
     """Parse the remote filepath and return the bucket name and the blob path.
 
-- 
2.43.0


From 9f09577ebdb3dc82a876554c8b590a8cd94f2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 29/50] fix: the password isn't saved next to the RSA key it
 encrypts

---
 src/litdata/utilities/encryption.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/encryption.py b/src/litdata/utilities/encryption.py
index ea93e72..7f0e385 100644
--- a/src/litdata/utilities/encryption.py
+++ b/src/litdata/utilities/encryption.py
@@ -241,8 +241,11 @@ class RSAEncryption(Encryption):
             return serialization.load_pem_public_key(key_file.read())
 
     def save(self, file_path: str) -> None:
+        state = self.__getstate__()
+        # the private key is encrypted with the password, which has to be provided again to load it
+        del state["password"]
         with open(file_path, "wb") as file:
-            file.write(json.dumps(self.__getstate__()).encode("utf-8"))
+            file.write(json.dumps(state).encode("utf-8"))
 
     @classmethod
     def load(cls, file_path: str, password: str) -> "RSAEncryption":
@@ -250,7 +253,7 @@ class RSAEncryption(Encryption):
             state = json.load(file)
 
         instance = cls(password=password, level=state["level"])
-        instance.__setstate__(state)
+        instance.__setstate__({**state, "password": password})
         return instance
 
     def save_keys(self, private_key_path: str, public_key_path: str) -> None:
-- 
2.43.0


From 6b997b2c71d3a0c12b5894912d7d63ec0ef9ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 30/50] fix: encrypted data is refused by the item loaders that
 would return it undecrypted

---
 src/litdata/streaming/config.py | 3 +++
 src/litdata/streaming/writer.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 6a141b4..fb2a96c 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -332,6 +332,9 @@ class ChunksConfig:
             ):
                 raise ValueError("Please, use Cache(..., item_loader=TokensLoader(block_size=...))")
 
+        if self._config.get("encryption") and not isinstance(self._item_loader, PyTreeLoader):
+            raise ValueError(f"Encrypted data can't be read with {self._item_loader.__class__.__name__}.")
+
 
 def load_subsampled_chunks(subsampled_files: List[str], original_chunks: List[Dict[str, Any]]) -> List[Dict[str, Any]]:
     """Loads Chunks based on subsample provided."""
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 50f0dc1..a2725c8 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -89,6 +89,9 @@ class BinaryWriter:
         self._encryption = encryption
         self._item_loader = item_loader or PyTreeLoader()
 
+        if self._encryption and not isinstance(self._item_loader, PyTreeLoader):
+            raise ValueError(f"{self._item_loader.__class__.__name__} can't read encrypted data.")
+
         self._data_format: Optional[List[str]] = None
         self._data_spec: Optional[PyTree] = None
 
-- 
2.43.0


From 0430c26afd1ffcbe1255407e9670bedcabc08c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 31/50] fix: storage_options reach the indexing of Hugging Face
 datasets

---
 src/litdata/streaming/dataset.py    | 2 +-
 src/litdata/utilities/hf_dataset.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 5c7b94c..178efd2 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -106,7 +106,7 @@ class StreamingDataset(IterableDataset):
         if input_dir.url is not None and input_dir.url.startswith("hf://"):
             if index_path is None:
                 # No index_path was provided. Attempt to load it from cache or generate it dynamically on the fly.
-                index_path = index_hf_dataset(input_dir.url)
+                index_path = index_hf_dataset(input_dir.url, storage_options)
 
             if item_loader is not None and not isinstance(item_loader, ParquetLoader):
                 raise ValueError(
diff --git a/src/litdata/utilities/hf_dataset.py b/src/litdata/utilities/hf_dataset.py
index 7740c04..3e23e5f 100644
--- a/src/litdata/utilities/hf_dataset.py
+++ b/src/litdata/utilities/hf_dataset.py
@@ -1,17 +1,19 @@
 """Contains utility functions for indexing and streaming HF datasets."""
 
 import os
+from typing import Dict, Optional
 
 from litdata.constants import _INDEX_FILENAME
 from litdata.streaming.writer import index_parquet_dataset
 from litdata.utilities.parquet import default_cache_dir
 
 
-def index_hf_dataset(hf_url: str) -> str:
+def index_hf_dataset(hf_url: str, storage_options: Optional[Dict] = {}) -> str:
     """Index a Hugging Face dataset and return the cache directory path.
 
     Args:
         hf_url (str): The URL of the Hugging Face dataset.
+        storage_options (Optional[Dict]): Additional storage options for accessing the Hugging Face dataset.
 
     Returns:
         str: The path to the cache directory containing the index.
@@ -29,6 +31,6 @@ def index_hf_dataset(hf_url: str) -> str:
         print(f"Found existing HF {_INDEX_FILENAME} file for {hf_url} at {cache_index_path}.")
     else:
         print(f"Indexing HF dataset from {hf_url} into {cache_index_path}.")
-        index_parquet_dataset(hf_url, cache_dir, num_workers=os.cpu_count() or 4)
+        index_parquet_dataset(hf_url, cache_dir, storage_options, num_workers=os.cpu_count() or 4)
 
     return cache_dir
-- 
2.43.0


From a4da49f3b8dd633820515f971543911ea8f667df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 32/50] fix: input files outside of the input directory aren't
 removed after they are processed

---
 src/litdata/processing/data_processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 6e041b3..775660f 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -595,7 +595,8 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                self.remove_queue.put(self.paths[index])
+                # the files outside of the input directory weren't copied to the cache, they are the user's own
+                self.remove_queue.put([path for path in self.paths[index] if path.startswith(self.input_dir.path)])
 
             try:
                 self.stop_queue.get(timeout=0.0001)
-- 
2.43.0


From a90c6465a8e559662e4928f5a97cff591a5bd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 33/50] fix: items mixing files in and out of the input
 directory don't stop the downloader

---
 src/litdata/processing/data_processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 775660f..37d79fb 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -169,7 +169,8 @@ def _download_data_target(
                     fs_provider.download_file(path, local_path)
 
                 elif os.path.isfile(path):
-                    if not path.startswith("/teamspace/studios/this_studio"):
+                    # a file outside of the input directory is used where it is
+                    if not path.startswith("/teamspace/studios/this_studio") and path != local_path:
                         os.makedirs(os.path.dirname(local_path), exist_ok=True)
                         shutil.copyfile(path, local_path)
                 else:
-- 
2.43.0


From 07c16e7a6f8720aeabe097d6ac7ff4ec82ed22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 34/50] fix: more than 1000 objects are deleted from or
 downloaded of a S3 directory

---
 src/litdata/streaming/fs_provider.py | 39 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index 3f345df..ef2c0ad 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -12,7 +12,7 @@
 # limitations under the License.
 import os
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, Iterator, List, Optional, Tuple
 from urllib import parse
 
 from litdata.constants import _GOOGLE_STORAGE_AVAILABLE, _SUPPORTED_PROVIDERS
@@ -158,23 +158,26 @@ class S3FsProvider(FsProvider):
         saved_file_dir = "."
 
         # List objects under the given prefix
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=remote_directory_name)
+        for key in self._list_objects(bucket_name, remote_directory_name):
+            local_filename = os.path.join(local_directory_name, key)
 
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                local_filename = os.path.join(local_directory_name, obj["Key"])
+            # Ensure parent directories exist
+            os.makedirs(os.path.dirname(local_filename), exist_ok=True)
 
-                # Ensure parent directories exist
-                os.makedirs(os.path.dirname(local_filename), exist_ok=True)
-
-                # Download each file
-                with open(local_filename, "wb") as f:
-                    self.client.client.download_fileobj(bucket_name, obj["Key"], f)
-                    saved_file_dir = os.path.dirname(local_filename)
+            # Download each file
+            with open(local_filename, "wb") as f:
+                self.client.client.download_fileobj(bucket_name, key, f)
+                saved_file_dir = os.path.dirname(local_filename)
 
         return saved_file_dir
 
+    def _list_objects(self, bucket_name: str, prefix: str) -> Iterator[str]:
+        """Yield the names of all the objects with the given prefix. A single listing holds 1000 of them at most."""
+        paginator = self.client.client.get_paginator("list_objects_v2")
+        for page in paginator.paginate(Bucket=bucket_name, Prefix=prefix):
+            for obj in page.get("Contents", []):
+                yield obj["Key"]
+
     def copy(self, remote_source: str, remote_destination: str) -> None:
         input_obj = parse.urlparse(remote_source)
         output_obj = parse.urlparse(remote_destination)
@@ -192,13 +195,9 @@ class S3FsProvider(FsProvider):
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
         # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
-
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                if _is_inside(obj["Key"], blob_path):
-                    self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+        for key in self._list_objects(bucket_name, blob_path):
+            if _is_inside(key, blob_path):
+                self.client.client.delete_object(Bucket=bucket_name, Key=key)
 
     def exists(self, path: str) -> bool:
         import botocore
-- 
2.43.0


From f384fbfe637a2a6e95b7dc4037d530cf6609878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 35/50] fix: items distributed by weight reach the user's
 function unchanged

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 37d79fb..8a3dfef 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -360,7 +360,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # permute the indices, as permuting the items would turn them into the elements of an array
+    return [
+        [worker_items[worker_id][i] for i in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From 8e680c4567c3562cde3684949d187eb599de7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 36/50] fix: a run whose downloader fails raises instead of
 waiting for its files forever

---
 src/litdata/processing/data_processor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 8a3dfef..5a72c84 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -555,7 +555,7 @@ class BaseWorker:
         num_downloader_finished = 0
 
         while True:
-            index = self.ready_to_process_queue.get()
+            index = self._get_ready_index()
 
             if index is None:
                 num_downloader_finished += 1
@@ -609,6 +609,18 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_ready_index(self) -> Optional[int]:
+        if isinstance(self.ready_to_process_queue, FakeQueue):
+            return self.ready_to_process_queue.get()
+
+        while True:
+            try:
+                return self.ready_to_process_queue.get(timeout=1)
+            except Empty:
+                # a downloader that failed never tells that it is done
+                if any(downloader.exitcode for downloader in self.downloaders):
+                    raise RuntimeError("A downloader failed, the files it was given weren't all downloaded.")
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
-- 
2.43.0


From 0f4971f03dbf45d4d524bc70c498733a43bc379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 37/50] fix: a run whose worker is killed raises instead of
 waiting for it forever

---
 src/litdata/processing/data_processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 5a72c84..4cd5f5f 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1244,6 +1244,9 @@ class DataProcessor:
                 try:
                     index, counter = self.progress_queue.get(timeout=0.001)
                 except Empty:
+                    # a worker that was killed reports neither its error nor its progress
+                    if any(w.exitcode for w in self.workers):
+                        self._exit_on_error("A worker exited before all its items were processed.")
                     continue
                 self.workers_tracker[index] = counter
                 new_total = sum(self.workers_tracker.values())
-- 
2.43.0


From 0a165b336dc70310a1eb1b3ce01441e123af8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 38/50] fix: resharded parquet files of the same name aren't
 mixed up

---
 src/litdata/processing/readers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index a1ebdef..476a941 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -12,6 +12,7 @@
 # limitations under the License.
 
 import contextlib
+import hashlib
 import os
 from abc import ABC, abstractmethod
 from typing import Any, List
@@ -113,7 +114,10 @@ class ParquetReader(BaseReader):
             num_rows = self._get_num_rows(filepath)
 
             table = None
-            parquet_filename = os.path.basename(filepath)
+            # files with the same name in other directories, and earlier versions of the file, have their own parts
+            stat = os.stat(filepath)
+            version = f"{os.path.abspath(filepath)}_{stat.st_size}_{stat.st_mtime_ns}"
+            parquet_filename = f"{hashlib.sha256(version.encode()).hexdigest()[:16]}_{os.path.basename(filepath)}"
 
             for start in _tqdm(range(0, num_rows, self.num_rows)):
                 end = min(start + self.num_rows, num_rows)
-- 
2.43.0


From 41bdae5ab0d2e9667d142745ed1cfa46e74f023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 39/50] fix: splits of a subsampled dataset keep the chunks
 with their own regions

---
 src/litdata/utilities/train_test_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litdata/utilities/train_test_split.py b/src/litdata/utilities/train_test_split.py
index b1332c6..f8dc277 100644
--- a/src/litdata/utilities/train_test_split.py
+++ b/src/litdata/utilities/train_test_split.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from litdata import StreamingDataset
 from litdata.constants import _INDEX_FILENAME
+from litdata.streaming.config import load_subsampled_chunks
 from litdata.utilities.dataset_utilities import load_index_file
 from litdata.utilities.subsample import shuffle_lists_together, subsample_filenames_and_roi
 
@@ -59,9 +60,8 @@ def train_test_split(
         data = load_index_file(input_dir.path)
 
         original_chunks = data["chunks"]
-        subsampled_chunks = [
-            _org_chunk for _org_chunk in original_chunks if _org_chunk["filename"] in dummy_subsampled_chunk_filename
-        ]
+        # in the order of the regions of interest
+        subsampled_chunks = load_subsampled_chunks(dummy_subsampled_chunk_filename, original_chunks)
     else:
         raise ValueError("Couldn't load original chunk file.")
 
-- 
2.43.0


From 1a4b20b6f92fd21331d679d32ff8ddc58a998d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 40/50] fix: datasets that have been read can be sent to other
 processes

---
 src/litdata/streaming/client.py      |  6 ++++++
 src/litdata/streaming/item_loader.py | 26 +++++++++++++++++++++++++-
 src/litdata/streaming/reader.py      |  3 +++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/client.py b/src/litdata/streaming/client.py
index e9bb5be..67a092b 100644
--- a/src/litdata/streaming/client.py
+++ b/src/litdata/streaming/client.py
@@ -32,6 +32,12 @@ class S3Client:
         self._client: Optional[Any] = None
         self._storage_options: dict = storage_options or {}
 
+    def __getstate__(self) -> Dict[str, Any]:
+        state = self.__dict__.copy()
+        # the connections can't be sent to another process, which creates its own
+        state["_client"] = None
+        return state
+
     def _create_client(self) -> None:
         has_shared_credentials_file = (
             os.getenv("AWS_SHARED_CREDENTIALS_FILE") == os.getenv("AWS_CONFIG_FILE") == "/.credentials/.aws_credentials"
diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 07e6f8a..0223610 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -71,6 +71,12 @@ class BaseItemLoader(ABC):
         if self._force_download_queue:
             self._force_download_queue.put(chunk_index)
 
+    def __getstate__(self) -> Dict[str, Any]:
+        state = self.__dict__.copy()
+        # the queue belongs to the prepare thread of this process
+        state["_force_download_queue"] = None
+        return state
+
     @functools.lru_cache(maxsize=128)
     def _data_format_to_key(self, data_format: str) -> str:
         if ":" in data_format:
@@ -366,7 +372,7 @@ class PyTreeLoader(BaseItemLoader):
         return head + body, None
 
     def __getstate__(self):
-        state = self.__dict__.copy()
+        state = super().__getstate__()
         state["_open_handle"] = None
         state["_chunk_filepath"] = None
         return state
@@ -389,6 +395,15 @@ class TokensLoader(BaseItemLoader):
         self._dtype: Optional[torch.dtype] = None
         self._chunk_filepaths: Dict[str, bool] = {}
 
+    def __getstate__(self) -> Dict[str, Any]:
+        state = super().__getstate__()
+        # the memory maps are made again where they are needed
+        state["_mmaps"] = {}
+        state["_buffers"] = {}
+        state["_counter"] = defaultdict(int)
+        state["_chunk_filepaths"] = {}
+        return state
+
     def state_dict(self) -> Dict:
         assert self._block_size
         return {
@@ -606,6 +621,15 @@ class ParquetLoader(BaseItemLoader):
                 "Consider setting low_memory=True to reduce memory consumption."
             )
 
+    def __getstate__(self) -> Dict[str, Any]:
+        state = super().__getstate__()
+        # the parquet files are opened again where they are needed
+        state["_df"] = {}
+        state["_chunk_row_groups"] = {}
+        state["_chunk_row_group_item_read_count"] = {}
+        state["_chunk_filepaths"] = {}
+        return state
+
     def setup(
         self,
         config: Dict,
diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 99c5f70..a2dc2f3 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -464,6 +464,9 @@ class BinaryReader:
     def __getstate__(self) -> Dict[str, Any]:
         state = self.__dict__.copy()
         state["_prepare_thread"] = None
+        # what was requested from that thread
+        state["_last_chunk_index"] = None
+        state["_chunks_queued_for_download"] = False
         return state
 
     def __del__(self) -> None:
-- 
2.43.0


From 6024e716aba9ac2795e11a3ba746105b5bd32ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 41/50] fix: forked processes don't share the position in a
 chunk or a stopped prefetching thread with their parent

---
 src/litdata/streaming/item_loader.py | 5 ++++-
 src/litdata/streaming/reader.py      | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 0223610..50b9b94 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -130,6 +130,7 @@ class PyTreeLoader(BaseItemLoader):
         self._chunk_filepath: str | None = None
         self._decrypted_chunks: Dict[int, bytes] = {}
         self._open_handle: FileIO | None = None
+        self._open_pid: int | None = None
 
     def generate_intervals(self) -> List[Interval]:
         intervals = []
@@ -184,7 +185,8 @@ class PyTreeLoader(BaseItemLoader):
         )
         offset = (1 + (index - begin) if index >= begin else index + 1) * 4
 
-        if chunk_filepath != self._chunk_filepath:
+        # the handle of a forked process shares its position with the one of the parent, so it has to be opened again
+        if chunk_filepath != self._chunk_filepath or self._open_pid != os.getpid():
             start_time = time()
             exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
             requested_force_download = False
@@ -206,6 +208,7 @@ class PyTreeLoader(BaseItemLoader):
                 self._open_handle.close()
 
             self._open_handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
+            self._open_pid = os.getpid()
 
         if self._config.get("encryption"):
             data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index a2dc2f3..7f66c31 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -305,6 +305,7 @@ class BinaryReader:
         self._prepare_thread: Optional[PrepareChunksThread] = None
         self._item_loader = item_loader or PyTreeLoader()
         self._last_chunk_index: Optional[int] = None
+        self._prepare_pid: Optional[int] = None
         self._chunks_queued_for_download = False
         self._max_cache_size = int(os.getenv("MAX_CACHE_SIZE", max_cache_size or 0))
         self._storage_options = storage_options
@@ -363,6 +364,12 @@ class BinaryReader:
             raise Exception("The reader index isn't defined.")
 
         if self._config and (self._config._remote_dir or self._config._compressor):
+            # The thread of the parent of a forked process doesn't run in the process itself
+            if self._prepare_thread is not None and self._prepare_pid != os.getpid():
+                self._prepare_thread = None
+                self._last_chunk_index = None
+                self._chunks_queued_for_download = False
+
             # Create and start the prepare chunks thread
             if self._prepare_thread is None and self._config:
                 self._prepare_thread = PrepareChunksThread(
@@ -376,6 +383,7 @@ class BinaryReader:
                 # Attach the force download queue
                 self._item_loader._force_download_queue = self._prepare_thread._force_download_queue  # type: ignore
                 self._prepare_thread.start()
+                self._prepare_pid = os.getpid()
                 if index.chunk_indexes:
                     self._prepare_thread.download(index.chunk_indexes)
                     self._chunks_queued_for_download = True
-- 
2.43.0


From 7365f9674fe562b6b71c84022b62a5e8c09c9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 42/50] fix: chunks are decompressed next to the compressed
 ones whatever the name of the folder

---
 src/litdata/streaming/config.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index fb2a96c..2f2c2d6 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -106,7 +106,7 @@ class ChunksConfig:
         self.filename_to_size_map: Dict[str, int] = {}
         for cnk in _original_chunks:
             # since files downloaded while reading will be decompressed, we need to store the name without compression
-            filename_without_compression = cnk["filename"].replace(f".{self._compressor_name}", "")
+            filename_without_compression = self._without_compression(cnk["filename"])
             self.filename_to_size_map[filename_without_compression] = cnk["chunk_bytes"]
 
     def can_delete(self, chunk_index: int) -> bool:
@@ -129,12 +129,12 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
         # the compressed file is removed once it has been decompressed
-        if os.path.exists(local_chunkpath) or os.path.exists(local_chunkpath.replace(f".{self._compressor_name}", "")):
+        if os.path.exists(local_chunkpath) or os.path.exists(self._without_compression(local_chunkpath)):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
                 # it as having been requested by something
-                self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+                self._downloader._increment_local_lock(self._without_compression(local_chunkpath))
                 pass
             return
 
@@ -142,17 +142,23 @@ class ChunksConfig:
             return
 
         if not skip_lock:
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+            self._downloader._increment_local_lock(self._without_compression(local_chunkpath))
 
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
 
+    def _without_compression(self, filepath: str) -> str:
+        """Return the path of the decompressed chunk."""
+        # the folders of the path can contain the name of the compression too
+        dirname, filename = os.path.split(filepath)
+        return os.path.join(dirname, filename.replace(f".{self._compressor_name}", ""))
+
     def try_decompress(self, local_chunkpath: str) -> None:
         if self._compressor is None:
             return
 
-        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+        target_local_chunkpath = self._without_compression(local_chunkpath)
 
         if os.path.exists(target_local_chunkpath):
             return
@@ -257,7 +263,7 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk["filename"])
 
         if self._compressor is not None:
-            local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+            local_chunkpath = self._without_compression(local_chunkpath)
 
         begin = self._intervals[index.chunk_index][0]
 
-- 
2.43.0


From 295b156678518ba727d052e723ded4f4c06f0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 43/50] fix: chunks are pre-downloaded beyond the first ones
 without a maximum cache size

---
 src/litdata/streaming/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 7f66c31..28629d2 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -243,8 +243,8 @@ class PrepareChunksThread(Thread):
                     # Avoid downloading too many chunks in advance at the risk of over using the disk space
                     self._pre_download_counter += 1
 
-            if self._max_cache_size:
-                self._maybe_delete_chunks()
+            # The chunks are released even when they are kept, otherwise no further ones are pre-downloaded
+            self._maybe_delete_chunks()
 
 
 # The BinaryReader operates as the inverse of the data optimization process:
-- 
2.43.0


From 4afb81130b99031b054aebc8c2ad35dfdf60da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 44/50] fix: a chunk whose download was forced is counted once
 as pre-downloaded

---
 src/litdata/streaming/reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 28629d2..074c075 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -213,8 +213,7 @@ class PrepareChunksThread(Thread):
             if self._pre_download_counter > 0:
                 self._pre_load_chunk(chunk_index)
 
-            # Avoid downloading too many chunks in advance at the risk of over using the disk space
-            self._pre_download_counter += 1
+            # The chunk is counted when it is taken from the queue of the chunks to download
 
     def run(self) -> None:
         while True:
-- 
2.43.0


From 36cf2639ab36a3faaa1ff71bf083f0fbec75cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 45/50] fix: the next chunk is downloaded without waiting when
 max_pre_download is 1

---
 src/litdata/streaming/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 074c075..fd9f2f6 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -60,7 +60,8 @@ class PrepareChunksThread(Thread):
         super().__init__(daemon=True)
         self._config = config
         self._item_loader = item_loader
-        self._max_pre_download = max_pre_download
+        # A chunk is released once the next one has been read, so both have to be there
+        self._max_pre_download = max(max_pre_download, 2)
         self._pre_download_counter = 0
         self._distributed_env = distributed_env
 
-- 
2.43.0


From f80c9ca8467ca910a4afb51334e34f959796939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 46/50] fix: reading parquet files doesn't wait for ever for
 one that isn't downloaded

---
 src/litdata/streaming/item_loader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 50b9b94..c896cc0 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -696,10 +696,20 @@ class ParquetLoader(BaseItemLoader):
         if chunk_filepath not in self._chunk_filepaths:
             exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
 
+            start_time = time()
+            requested_force_download = False
+
             while not exists:
                 sleep(0.1)
                 exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
 
+                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                    self.force_download(chunk_index)
+                    requested_force_download = True
+
+                if (time() - start_time) > _MAX_WAIT_TIME:
+                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+
             self._chunk_filepaths[chunk_filepath] = True
 
         # relative index of the desired row within the chunk.
-- 
2.43.0


From 2d53fe1d76637d1d1ece1b8840f02f17faf5c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 47/50] fix: rows of parquet files whose row groups differ in
 size are found in low memory mode

---
 src/litdata/streaming/item_loader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index c896cc0..b6a38ba 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -747,9 +747,14 @@ class ParquetLoader(BaseItemLoader):
 
         # Determine the row group and the row index within the row group
         parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        # Note: The row groups of a file don't need to have the same number of rows
+        row_group_index = 0
+        row_index_within_group = row_index
+        num_rows_in_group = parquet_file.metadata.row_group(row_group_index).num_rows
+        while row_index_within_group >= num_rows_in_group:
+            row_index_within_group -= num_rows_in_group
+            row_group_index += 1
+            num_rows_in_group = parquet_file.metadata.row_group(row_group_index).num_rows
 
         # Check if the row group is already loaded
         if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
@@ -772,7 +777,7 @@ class ParquetLoader(BaseItemLoader):
 
         # Check if the row group has been fully read and release memory if necessary
         read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        if read_count >= num_rows_in_group:
             # Release memory for the fully read row group
             del self._chunk_row_groups[chunk_index][row_group_index]
             del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-- 
2.43.0


From ffc4894e8c4e9d272a5cc01c5032e6c6b8e505d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 48/50] fix: an interrupted indexing of parquet files leaves no
 partial index behind

---
 src/litdata/utilities/parquet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 192be2d..0263108 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -55,10 +55,12 @@ class ParquetDir(ABC):
         assert self.cache_path is not None, "Cache path is not set."
         index_file_path = os.path.join(self.cache_path, _INDEX_FILENAME)
 
-        # write to index.json file
-        with open(index_file_path, "w") as f:
+        # write to index.json file, an existing one is taken as complete by later runs and other processes
+        temp_file_path = f"{index_file_path}.{os.getpid()}.tmp"
+        with open(temp_file_path, "w") as f:
             data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
             json.dump(data, f, sort_keys=True)
+        os.replace(temp_file_path, index_file_path)
 
         print(f"Index file successfully written to: {index_file_path}")
 
-- 
2.43.0


From 769e7f3431d769d591df1f26f4455f9fac1020f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 49/50] fix: a broken off first pass over a cached data loader
 isn't taken for the entire dataset

---
 src/litdata/streaming/dataloader.py | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c510f46..d6a1a4b 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -33,7 +33,7 @@ from torch.utils.data.dataloader import (
 )
 from torch.utils.data.sampler import BatchSampler, Sampler
 
-from litdata.constants import _DEFAULT_CHUNK_BYTES, _VIZ_TRACKER_AVAILABLE
+from litdata.constants import _DEFAULT_CHUNK_BYTES, _INDEX_FILENAME, _VIZ_TRACKER_AVAILABLE
 from litdata.debugger import _get_log_msg
 from litdata.streaming import Cache
 from litdata.streaming.combined import (
@@ -229,7 +229,10 @@ class WorkerLoop:
 class _MultiProcessingDataLoaderIterPatch(_MultiProcessingDataLoaderIter):
     def __init__(self, loader: DataLoader) -> None:
         self._cache = loader._cache
+        self._global_rank = loader._global_rank
         self._num_workers = loader.num_workers
+        self._is_fetching = False
+        self._is_complete = False
         # Patch PyTorch worker loop to call the `cache.done()` method.
         from torch.utils.data._utils import worker
 
@@ -239,18 +242,41 @@ class _MultiProcessingDataLoaderIterPatch(_MultiProcessingDataLoaderIter):
     def _shutdown_workers(self) -> None:
         super()._shutdown_workers()
 
+        # When the workers are stopped while fetching, it isn't known yet whether the end was reached
+        if not self._is_fetching:
+            self._merge_indexes()
+
+    def _merge_indexes(self) -> None:
+        if self._cache.filled:
+            return
+
         # If the data isn't filled, we trigger an indedm merge
-        if not self._cache.filled:
+        if self._is_complete:
             self._cache.merge(self._num_workers)
+            return
+
+        # The iteration was broken off: what was written so far mustn't be taken for the entire dataset
+        for worker_idx in range(self._num_workers):
+            rank = self._global_rank * self._num_workers + worker_idx
+            index_filepath = os.path.join(self._cache.cache_dir, f"{rank}.{_INDEX_FILENAME}")
+            if os.path.exists(index_filepath):
+                os.remove(index_filepath)
 
     def _next_data(self) -> Any:
+        self._is_fetching = True
         try:
             data = None
             while data is None:
                 data = super()._next_data()
             return data
         except StopIteration as e:
+            self._is_complete = True
+            # With persistent workers, the indexes are written once the workers are stopped
+            if not self._persistent_workers:
+                self._merge_indexes()
             raise e
+        finally:
+            self._is_fetching = False
 
 
 class CacheDataLoader(DataLoader):
-- 
2.43.0


From e98d3c7f9949fd102f811beeb10c21420a175947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 50/50] fix: a rank without items or chunks gets no batches
 from the cache sampler instead of an IndexError

---
 src/litdata/streaming/sampler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 4c67b51..94e2f49 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -230,11 +230,8 @@ class CacheBatchSampler:
                 batches.append(worker_indices.pop(0))
             counter += 1
 
-        while True:
-            if len(batches[-1]) == 0:
-                batches.pop(-1)
-            else:
-                break
+        while batches and len(batches[-1]) == 0:
+            batches.pop(-1)
 
         yield from batches
 
-- 
2.43.0

