From 8cd9bd0fd98c4877712ca0738f74aaf43a0067aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 01/51] fix: encode strings before hashing them with xxhash

xxhash 4 only accepts bytes-like input, so hashing any mixture key (and
seeding from a list) raised TypeError. Encoding as UTF-8 yields the very
same digests older xxhash versions computed for str.
---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From 709906b366a6cf09af05ca259bca31ef554f7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/51] fix: fetch query results via to_arrow_table

fetch_arrow_table was removed from DuckDB connections, so executing any
query raised AttributeError.
---
 mixtera/core/query/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..d4aa21e 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -108,7 +108,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = conn.execute(columns_query, parameters).to_arrow_table().column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +152,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            mdc._connection.execute(full_query, parameters).to_arrow_table(),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 4b7f8e3be9262673398feecc01cd011c797f53d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 03/51] fix: do not hang when iterating an arbitrary mixture
 with exhausted keys

Skipping two keys at a time when hitting an exhausted key can cycle through
exhausted keys only (e.g., two keys of which one is exhausted), spinning
forever without ever delivering the remaining samples.
---
 mixtera/core/query/query_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..dee9c99 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,16 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skipped = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # Skipping two keys at a time can cycle through exhausted keys only and never reach a
+                        # non-exhausted one, hence we advance key by key after not finding any key that way.
+                        if num_skipped < len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        num_skipped += 1
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 69f5825c73df4d5b1817cf74bff32f3168e35a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 04/51] fix: consider the new mixture after failing to generate
 a chunk

After yielding None, the chunk generator dropped the mixture passed in by the
next call and kept on retrying the old mixture until giving up, although the
retry exists to support mixture changes.
---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index dee9c99..a7c2e00 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -500,7 +500,7 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From dbb1f054b8ac1ee6ee2801655b78ab80971f595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 05/51] fix: best-effort chunks with only zero-row mixture keys
 left

If all mixture keys with a non-zero number of rows are depleted, the
redistribution of missing samples divided by zero.
---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index a7c2e00..66810ac 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -448,7 +448,11 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:
+                                        # Only keys that got rounded down to 0 rows are left
+                                        ratios = [1.0 / len(target_keys)] * len(target_keys)
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From 599e28d2a1f7ffa282f4a77b979f48737eeb7211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 06/51] fix: keep chunks consumable when a mixture key is
 rounded down to 0 rows

The generator added an empty range for keys without rows, and the consumer,
which drops 0-row keys from the mixture, then rejected the chunk because its
keys do not match the mixture.
---
 mixtera/core/query/query_result.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 66810ac..a85707c 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -360,6 +360,11 @@ class QueryResult:
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
 
+                        # Nothing (more) to fetch for this key. Avoids adding empty ranges to the chunk, in particular
+                        # for keys without any samples, which the consumer of the chunk would not expect.
+                        if remaining_sizes[mixture_key] == 0:
+                            continue
+
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
                             if mixture_key == component_key:
-- 
2.43.0


From 84062b848563ba99d225ca05cf7c96ba8787171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 07/51] fix: create the query result directory when
 checkpointing uncached queries

QueryResult.to_cache requires an existing directory, hence the first
checkpoint of a query that is not in the query cache always failed.
---
 mixtera/core/query/chunk_distributor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..74a8997 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -382,6 +382,7 @@ class ChunkDistributor:
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True, exist_ok=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             logger.debug("Handled pickling of QueryResult.")
 
-- 
2.43.0


From cb19931b1e2db3be859ee6abe8b79b9136f4c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 08/51] fix: restore checkpoints taken after a chunk could not
 be generated

Attempts to generate a chunk that fail (e.g., the data is exhausted) were
counted as returned chunks, and replaying them when restoring a checkpoint
raised. Replay them like in the original run, switch the mixture at the same
attempt, and do not count calls ending with a StopIteration.
---
 mixtera/core/query/chunk_distributor.py |  2 +-
 mixtera/core/query/query_result.py      | 25 ++++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 74a8997..90aed68 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -434,7 +434,7 @@ class ChunkDistributor:
         checkpoint_id: str,
         chkpnt_dir: Path,
         state_to_save: dict[str, Any],
-        mixture_log: list[tuple[int, Any]],
+        mixture_log: list[tuple[int, Any, int]],
         num_returns_gen: int,
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index a85707c..6525c5a 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -85,7 +85,9 @@ class QueryResult:
         self._num_returns_gen = 0
         logger.debug("QueryResult instantiated.")
 
-        self._mixture_log: list[tuple[int, Mixture]] = []
+        # Log of mixture changes: (chunk index, mixture, number of generator returns before the change).
+        # The latter differs from the chunk index if we failed to generate some chunk (and may have tried again).
+        self._mixture_log: list[tuple[int, Mixture, int]] = []
         self._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
@@ -125,7 +127,7 @@ class QueryResult:
         with open(self._query_log_dir / "mixture.log", "w", encoding="utf-8") as fp:
             json.dump(
                 {
-                    "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture in self._mixture_log},
+                    "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture, _ in self._mixture_log},
                     "curr_chunk_idx": curr_chunk_idx,
                 },
                 fp,
@@ -341,7 +343,7 @@ class QueryResult:
                             last_mixture._mixing_alg = None
 
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture), self._num_returns_gen))
 
                     self._persist_mixture_log()
                     self._update_key_id_map()
@@ -516,7 +518,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((current_chunk_index, base_mixture, self._num_returns_gen))
                     self._persist_mixture_log()
 
                 chunk = None
@@ -596,8 +598,8 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
+            self._num_returns_gen += 1
             if result is None:
                 # In case we reach end of chunks (for now),
                 # next time (e.g. due to updated mixture) we try again to fetch the same ID.
@@ -709,6 +711,10 @@ class QueryResult:
         logger.debug(f"Starting to replay {num_chunks_replay} chunks.")
         mixture_log = self._mixture_log
         self._is_replay = True
+        # We also replay failed attempts to generate a chunk, as they consume data
+        stop_on_none = self.stop_on_none
+        self.stop_on_none = False
+        num_chunks_success = 0
 
         mixture_log_index = 0
         num_mixture_changes = len(mixture_log)
@@ -723,7 +729,7 @@ class QueryResult:
 
         # Initialize next mixture change, if any
         if mixture_log_index < num_mixture_changes:
-            next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
+            next_mixture_change_chunk_index = mixture_log[mixture_log_index][2]
             next_mixture = deepcopy(mixture_log[mixture_log_index][1])
         else:
             next_mixture_change_chunk_index = None
@@ -737,20 +743,21 @@ class QueryResult:
                 self.update_mixture(next_mixture)
                 mixture_log_index += 1
                 if mixture_log_index < num_mixture_changes:
-                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
+                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][2]
                     next_mixture = deepcopy(mixture_log[mixture_log_index][1])
                 else:
                     next_mixture_change_chunk_index = None
 
             try:
-                _ = next(self)
+                num_chunks_success += int(next(self) is not None)
             except StopIteration as e:
                 raise RuntimeError(f"Generator exhausted during replay at chunk index {i} - should not happen!") from e
 
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
-        assert self._index.get_obj().value == num_chunks_replay
+        assert self._index.get_obj().value == num_chunks_success
         self._is_replay = False
+        self.stop_on_none = stop_on_none
 
     @classmethod
     def from_cache(cls, path: Path, replay: bool = True) -> "QueryResult":
-- 
2.43.0


From ebd450c4b4c9dd7a9b00291adfa1b7f196829de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 09/51] fix: restore the ids of mixture keys from the
 checkpoint

The ids handed out to clients were recalculated based on the stored
QueryResult, which may stem from the query cache and thus from another job
with another mixture. After restoring, ids then had a different meaning than
in the chunks and the state of the dynamic mixing algorithm checkpointed.
---
 mixtera/core/query/chunk_distributor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 90aed68..d2c2c3f 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -408,6 +408,7 @@ class ChunkDistributor:
             logger.debug(str(mixture_log[-1][1]._mixing_alg))
 
         returns_gen = self._query_result._num_returns_gen
+        key_id_map = deepcopy(self._query_result._key_id_map)
 
         logger.debug("Spinning up the persisting process.")
 
@@ -422,6 +423,7 @@ class ChunkDistributor:
                 state_to_save,
                 mixture_log,
                 returns_gen,
+                key_id_map,
                 worker_sample_ids,
                 directory_to_copy,
             ),
@@ -436,6 +438,7 @@ class ChunkDistributor:
         state_to_save: dict[str, Any],
         mixture_log: list[tuple[int, Any, int]],
         num_returns_gen: int,
+        key_id_map: dict[Any, int],
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
     ) -> None:
@@ -504,7 +507,9 @@ class ChunkDistributor:
             logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
                 dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
+                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log, "key_id_map": key_id_map},
+                    f,
+                    protocol=dill.HIGHEST_PROTOCOL,
                 )
 
             logger.debug("Wrote checkpoint.")
@@ -601,6 +606,8 @@ class ChunkDistributor:
         logger.debug("Loading QueryResult.")
         query_result = QueryResult.from_cache(query_dir, replay=False)
         query_result._mixture_log = query_result_state["mixture_log"]
+        # The stored QueryResult might stem from another job with another mixture (query cache)
+        query_result._key_id_map = query_result_state["key_id_map"]
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
-- 
2.43.0


From 3303dfcc6995b0859bb86d3587859d33e4742b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 10/51] fix: checkpoint mixture updates that did not affect a
 chunk yet

When restoring, the mixture of the last chunk handed out before the
checkpoint was used (or, without any chunk so far, the mixture stored with
the potentially cached QueryResult) instead of the current one.
---
 mixtera/core/query/chunk_distributor.py | 8 ++++++++
 mixtera/core/query/query_result.py      | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index d2c2c3f..b063a6e 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -408,6 +408,14 @@ class ChunkDistributor:
             logger.debug(str(mixture_log[-1][1]._mixing_alg))
 
         returns_gen = self._query_result._num_returns_gen
+
+        # The mixture might have changed since the last chunk (or there is no chunk yet), i.e., it is not logged yet.
+        mixture = self._query_result._mixture
+        if mixture is not None and (
+            len(mixture_log) == 0 or mixture_log[-1][1].mixture_in_rows() != mixture.mixture_in_rows()
+        ):
+            mixture_log.append((-1, deepcopy(mixture), returns_gen))
+
         key_id_map = deepcopy(self._query_result._key_id_map)
 
         logger.debug("Spinning up the persisting process.")
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6525c5a..5ff1ce1 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -705,7 +705,7 @@ class QueryResult:
         logger.debug("Write mixture logs.")
 
     def replay(self, num_chunks_replay: int) -> None:
-        if num_chunks_replay < 1:
+        if num_chunks_replay < 1 and len(self._mixture_log) == 0:
             return
 
         logger.debug(f"Starting to replay {num_chunks_replay} chunks.")
@@ -753,6 +753,10 @@ class QueryResult:
             except StopIteration as e:
                 raise RuntimeError(f"Generator exhausted during replay at chunk index {i} - should not happen!") from e
 
+        # The last mixture might not have been used for any chunk. We will log it when using it for the first time.
+        while len(mixture_log) > 0 and mixture_log[-1][2] >= num_chunks_replay:
+            self.update_mixture(mixture_log.pop()[1])
+
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
         assert self._index.get_obj().value == num_chunks_success
-- 
2.43.0


From dd3c215bc37f34f9e7d8f2f29906966bb5156dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/51] fix: allow checkpointing again after rejecting an
 inconsistent checkpoint

After a failed validation, all nodes remained marked as reported, such that
every later checkpoint of the job was rejected.
---
 mixtera/core/query/chunk_distributor.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b063a6e..96be992 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._query_result_stored = False  # The first checkpoint stores the QueryResult
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -276,18 +277,20 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                finally:
+                    # Reset for next checkpoint (also after a failed one), afterwards release the lock,
+                    # allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
@@ -375,8 +378,9 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
+        if not self._query_result_stored:
             logger.debug("This is the first checkpoint.")
+            self._query_result_stored = True
             if self._cached_query is not None:
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
@@ -641,6 +645,7 @@ class ChunkDistributor:
         chunk_distributor._current_checkpoint_id = None
         chunk_distributor._worker_statuses = {}
         chunk_distributor._nodes_reported = set()
+        chunk_distributor._query_result_stored = True
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
 
         # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
-- 
2.43.0


From 85180528b5ffd462272881f4dbee4b0fbc6ddcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 12/51] fix: inform all mixtures of a schedule about the
 chunker index

Only the mixture active at the time was informed. An inferring mixture
scheduled for a later step hence never got to know the data distribution and
was silently treated as an arbitrary mixture.
---
 mixtera/core/query/mixture/mixture_schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..cc60ed9 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -54,12 +54,13 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures about the overall chunker index, as each of them may become the current mixture.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From 26b5864fe300d93e4e2a2c8f614c4075ffee58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/51] fix: do not hang when reading a chunk with keys too
 rare for a window

Keys whose share of a window is rounded down to 0 were never read, such that a
best-effort windowed iteration never terminated.
---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..94b61e5 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -440,6 +440,10 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0 and self._window_best_effort:
+                # The remaining keys are so rare that they are not part of a window (count 0). Continue with those only.
+                element_counts = [(property_key, self._window_size) for property_key, _ in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From d5e8fd28f53da554064cac8a054fa2a2258fd9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 14/51] fix: propagate errors when prefetching the first sample
 of a chunk

Exceptions raised while prefetching were indistinguishable from the end of the
data, silently dropping all samples of a mixture key.
---
 mixtera/utils/prefetch_iterator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..7802ce7 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,6 +10,7 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.exception: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
@@ -18,6 +19,8 @@ class PrefetchFirstItemIterator(Iterator[T]):
             self.first_item = next(self.iterator)
         except StopIteration:
             self.first_item = None
+        except BaseException as ex:  # pylint: disable=broad-exception-caught
+            self.exception = ex  # raised when the first item is requested
         finally:
             self.prefetch_event.set()
 
@@ -25,6 +28,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
+            if self.exception is not None:
+                raise self.exception
+
             if self.first_item is not None:
                 return self.first_item
 
-- 
2.43.0


From 4b27d8e1cac729d75ef36734f7e616cf7a44f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 15/51] fix: do not mistake a sample for the end of the stream
 of a reader process

A sample consisting of the text END_OF_STREAM ended the parallel reading of a
chunk, silently dropping all samples after it.
---
 mixtera/core/query/result_chunk.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 94b61e5..4a3c5c8 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,19 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+class _EndOfStream:
+    """Sent by the reader processes after their last sample. Never equal to a sample, regardless of its content."""
+
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, _EndOfStream)
+
+    def __hash__(self) -> int:
+        return hash(_EndOfStream)
+
+
+END_OF_STREAM_OBJECT = _EndOfStream()
 
 original_start = mp.Process.start
 
-- 
2.43.0


From 17d15392fbb8a03bd81285d332ee9f1ca2dbac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 16/51] fix: tokenize with transformers 5, which removed
 batch_encode_plus

---
 mixtera/utils/tokenizing_iterator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..f2b9c0a 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -1,5 +1,10 @@
 import threading
-from typing import Any, Iterator
+from typing import Any, Callable, Iterator
+
+
+def _batch_encode_function(tokenizer: Any) -> Callable[..., Any]:
+    # transformers 5 removed batch_encode_plus; calling the tokenizer is equivalent.
+    return getattr(tokenizer, "batch_encode_plus", tokenizer)
 
 
 class TokenizingIterator:
@@ -48,7 +53,7 @@ class TokenizingIterator:
                 break
 
         if texts:
-            encoded_batch = self.tokenizer.batch_encode_plus(
+            encoded_batch = _batch_encode_function(self.tokenizer)(
                 texts,
                 return_attention_mask=False,
                 return_token_type_ids=False,
@@ -148,7 +153,7 @@ class ThreadedTokenizingIterator:
                     local_eos = True
 
             if texts:
-                encoded_batch = self.tokenizer.batch_encode_plus(
+                encoded_batch = _batch_encode_function(self.tokenizer)(
                     texts,
                     return_attention_mask=False,
                     return_token_type_ids=False,
-- 
2.43.0


From 6c4b7d577da32e90501900ee306379b718a503b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 17/51] fix: propagate errors of the tokenization thread
 instead of hanging

---
 mixtera/utils/tokenizing_iterator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index f2b9c0a..176decc 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -136,12 +136,23 @@ class ThreadedTokenizingIterator:
 
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
-        self.background_thread = threading.Thread(target=self.prefetch_loop)
+        self.exception: BaseException | None = None
+        self.background_thread = threading.Thread(target=self._prefetch)
         self.background_thread.start()
 
     def __iter__(self) -> "ThreadedTokenizingIterator":
         return self
 
+    def _prefetch(self) -> None:
+        try:
+            self.prefetch_loop()
+        except BaseException as ex:  # pylint: disable=broad-exception-caught
+            # Raised in __next__, otherwise the consumer would wait forever.
+            with self.lock:
+                self.exception = ex
+                self.eos = True
+                self.condition.notify_all()
+
     def prefetch_loop(self) -> None:
         while not self.eos:
             texts = []
@@ -191,6 +202,9 @@ class ThreadedTokenizingIterator:
                     self.yielded_samples += 1
                     return chunk
 
+                if self.exception is not None:
+                    raise self.exception
+
                 if self.eos:
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
-- 
2.43.0


From 4f8e83168ccec293182add6bf23070339b264f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 18/51] fix: keep property values containing separators apart
 in the chunker index

---
 .../core/query/chunker/include/chunker.hpp    |  3 ++
 mixtera/core/query/chunker/src/chunker.cpp    | 36 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/mixtera/core/query/chunker/include/chunker.hpp b/mixtera/core/query/chunker/include/chunker.hpp
index 735787e..5367938 100644
--- a/mixtera/core/query/chunker/include/chunker.hpp
+++ b/mixtera/core/query/chunker/include/chunker.hpp
@@ -51,6 +51,9 @@ using MapT = absl::flat_hash_map<T1, T2>;
 
 // TODO(#142): We should template this in the integer type.
 using MixtureKeyCpp = std::string;
+// Property values may contain any printable character, hence we use control characters to structure the key.
+constexpr char kValueTerminator = '\x1f';
+constexpr char kPropertySeparator = '\x1e';
 using Interval = std::pair<int64_t, int64_t>;
 using FileIntervals = MapT<int64_t, std::vector<Interval>>;
 using DatasetFiles = MapT<int64_t, FileIntervals>;
diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..55ca118 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -129,7 +129,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
         }
 
         if (!first_prop) {
-          key += ";";
+          key += kPropertySeparator;
         }
         first_prop = false;
 
@@ -148,7 +148,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               auto str_array = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(array);
               value = str_array->GetString(i);
             }
-            key += value;
+            key += value + kValueTerminator;
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -182,9 +182,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               FAIL(fmt::format("Invalid offset/length for LIST column '{}' at row {}", col_name, i));
             }
 
-            // Build values string
-            std::string values_str;
-            bool first_value = true;
+            // Collect values
+            std::vector<std::string> values;
 
             const auto value_type_id = value_array->type_id();
 
@@ -202,11 +201,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +243,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
             } else {
@@ -260,7 +251,9 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                value_array->type()->ToString()));
             }
 
-            key += values_str;
+            for (const std::string& val : values) {
+              key += val + kValueTerminator;
+            }
 
             // Handle DICTIONARY type
           } else if (type_id == arrow::Type::DICTIONARY) {
@@ -298,7 +291,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                dict->type()->ToString()));
             }
 
-            key += value;
+            key += value + kValueTerminator;
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -531,11 +524,12 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
 
 py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
   // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+  // Expected format (with ',' for the value terminator and ';' for the property separator):
+  // "prop1:val1,val2,;prop2:val3,"
   py::dict py_properties;
   std::stringstream ss_props(key);
   std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
+  while (std::getline(ss_props, prop_pair, kPropertySeparator)) {
     size_t colon_pos = prop_pair.find(':');
     if (colon_pos == std::string::npos) {
       continue;
@@ -543,11 +537,11 @@ py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
     std::string prop_name = prop_pair.substr(0, colon_pos);
     std::string values_str = prop_pair.substr(colon_pos + 1);
 
-    // Split values by ','
+    // Split values by their terminator
     std::vector<std::string> values;
     std::stringstream ss_values(values_str);
     std::string value;
-    while (std::getline(ss_values, value, ',')) {
+    while (std::getline(ss_values, value, kValueTerminator)) {
       values.push_back(value);
     }
     py_properties[py::cast(prop_name)] = py::cast(std::move(values));
-- 
2.43.0


From c6611a8a0767b8fa32ec9b6970324d987f884c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 19/51] fix: do not lose data of mixture keys with differently
 ordered values

---
 mixtera/core/query/chunker/src/chunker.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 55ca118..2a5af11 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -14,6 +14,7 @@
 #include <indicators/cursor_control.hpp>
 #include <indicators/progress_bar.hpp>
 #include <indicators/termcolor.hpp>
+#include <algorithm>
 #include <iostream>
 #include <thread>
 #include <typeinfo>
@@ -251,6 +252,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                value_array->type()->ToString()));
             }
 
+            // The order of values does not matter: mixture keys only differing in it are the same key in Python.
+            std::sort(values.begin(), values.end());
             for (const std::string& val : values) {
               key += val + kValueTerminator;
             }
@@ -415,6 +418,15 @@ std::vector<ChunkerIndexCpp> calc_thread_chunker_indices(py::object& py_table, u
             // After processing, release the batch
             batches[b].reset();
           }
+
+          // Rows of different order of values (and hence not consecutive ones) can end up in the same list of intervals.
+          for (auto& [key, datasets] : thread_chunker_indices[t]) {
+            for (auto& [dataset_id, files] : datasets) {
+              for (auto& [file_id, intervals] : files) {
+                std::sort(intervals.begin(), intervals.end());
+              }
+            }
+          }
         } catch (const std::exception& e) {
           spdlog::error("Exception in thread {}: {}", t, e.what());
           {
-- 
2.43.0


From 1dd90b36f255026bc3e67eba637ddfcd2431f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 20/51] fix: infer the same mixture in every process

---
 mixtera/core/datacollection/index/index_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/index_utils.py b/mixtera/core/datacollection/index/index_utils.py
index 1bd6659..71d028e 100644
--- a/mixtera/core/datacollection/index/index_utils.py
+++ b/mixtera/core/datacollection/index/index_utils.py
@@ -19,7 +19,8 @@ def infer_mixture_from_chunkerindex(chunker_index: ChunkerIndex) -> tuple[int, d
         )
         return mass
 
-    for property_combination, partition_entry in chunker_index.items():
+    # The order of the keys breaks ties when rounding the mixture, and is not deterministic in the chunker index.
+    for property_combination, partition_entry in sorted(chunker_index.items(), key=lambda x: x[0]):
         partition_mass = calculate_partition_mass(partition_entry)
         partition_masses[property_combination] = partition_mass
         total_count += partition_mass
-- 
2.43.0


From 9c272e8c5bf1accf1ac0a5390a151019896ebd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 21/51] fix: log every change of the mixture with a copy of its
 state

---
 mixtera/core/query/chunk_distributor.py |  6 ++--
 mixtera/core/query/query_result.py      | 43 ++++++++++++++-----------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 96be992..ea3da50 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -413,11 +413,9 @@ class ChunkDistributor:
 
         returns_gen = self._query_result._num_returns_gen
 
-        # The mixture might have changed since the last chunk (or there is no chunk yet), i.e., it is not logged yet.
+        # The mixture might have changed since the last chunk (or there is no chunk yet). Hence, its state is not logged.
         mixture = self._query_result._mixture
-        if mixture is not None and (
-            len(mixture_log) == 0 or mixture_log[-1][1].mixture_in_rows() != mixture.mixture_in_rows()
-        ):
+        if mixture is not None:
             mixture_log.append((-1, deepcopy(mixture), returns_gen))
 
         key_id_map = deepcopy(self._query_result._key_id_map)
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 5ff1ce1..01aff9d 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -115,6 +115,26 @@ class QueryResult:
             self._mixture.process_id_map(self._key_id_map)
             logger.debug(f"Updated key-id-map:\n{self._key_id_map}\n")
 
+    def _log_mixture(self, chunk_index: int, mixture: Mixture) -> None:
+        """
+        Log the mixture used from now on, unless it generates the same chunks as the one logged last.
+        We need to log a copy, since the mixture changes on client feedback.
+        """
+        if len(self._mixture_log) > 0:
+            last_mixture = self._mixture_log[-1][1]
+            if (last_mixture.mixture_in_rows(), last_mixture.strict, last_mixture.chunk_size) == (
+                mixture.mixture_in_rows(),
+                mixture.strict,
+                mixture.chunk_size,
+            ):
+                return
+
+            if isinstance(last_mixture, DynamicMixture) and hasattr(last_mixture, "_mixing_alg"):
+                logger.info("Cleaning up last mixing algorithm from mixture log.")
+                last_mixture._mixing_alg = None
+
+        self._mixture_log.append((chunk_index, deepcopy(mixture), self._num_returns_gen))
+
     def _persist_mixture_log(self) -> None:
         if self._query_log_dir is None:
             return
@@ -323,28 +343,17 @@ class QueryResult:
             mixture = deepcopy(base_mixture.mixture_in_rows())
             is_strict = base_mixture.strict
 
+            # Dont do this during replay:
+            # otherwise the last chunk (which we have not even replayed!) loses its mixing alg!
+            if not self._is_replay:
+                self._log_mixture(current_chunk_index, base_mixture)
+
             chunk_success = False
             if mixture:
                 if previous_mixture != mixture:
                     logger.debug(f"Obtained new mixture: {mixture}")
                     mixture_id += 1
                     previous_mixture = deepcopy(mixture)
-
-                    if len(self._mixture_log) > 0:
-                        last_mixture = self._mixture_log[-1][1]
-                        if (
-                            isinstance(last_mixture, DynamicMixture)
-                            and hasattr(last_mixture, "_mixing_alg")
-                            and not self._is_replay
-                        ):
-                            # Dont do this during replay:
-                            # otherwise the last chunk (which we have not even replayed!) loses its mixing alg!
-                            logger.info("Cleaning up last mixing algorithm from mixture log.")
-                            last_mixture._mixing_alg = None
-
-                    if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture), self._num_returns_gen))
-
                     self._persist_mixture_log()
                     self._update_key_id_map()
 
@@ -517,8 +526,6 @@ class QueryResult:
                     logger.debug("Obtained new None mixture.")
                     mixture_id += 1
                     previous_mixture = None
-                    if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture, self._num_returns_gen))
                     self._persist_mixture_log()
 
                 chunk = None
-- 
2.43.0


From 6cfe8190a1d7c4e25125384ec2091c71108972b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 22/51] fix: allow checkpoints before all workers continued
 after a restore

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index ea3da50..cfc61b3 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -493,7 +493,8 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        # After a restore, workers may not have requested their chunk (again) yet
+                        if next_chunk >= 0 and next_chunk in state_to_save["chunk_cache"][dp_group]:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
-- 
2.43.0


From 7498a49115043033af71e9b5a98749ae8ecf1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 23/51] fix: report checkpoints as completed only with a stored
 query result

---
 mixtera/core/query/chunk_distributor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index cfc61b3..a707e9e 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -89,6 +89,7 @@ class ChunkDistributor:
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
         self._query_result_stored = False  # The first checkpoint stores the QueryResult
+        self._query_result_process: mp.process.BaseProcess | None = None  # The process storing it, if any
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -439,6 +440,8 @@ class ChunkDistributor:
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
+        if directory_to_copy is not None:
+            self._query_result_process = p
         p.start()
 
     @staticmethod
@@ -558,16 +561,19 @@ class ChunkDistributor:
             # The in-memory copy has been made as the process has started
             return True
 
-        process = checkpoint_info["process"]
+        # Besides its own process, each checkpoint relies on the QueryResult stored by the process of the first one
+        for process in (checkpoint_info["process"], self._query_result_process):
+            if process is None:
+                continue
 
-        # Check if the process is alive
-        if process.is_alive():
-            return False  # Still in progress
+            # Check if the process is alive
+            if process.is_alive():
+                return False  # Still in progress
 
-        # Process has finished
-        process.join()
-        if process.exitcode != 0:
-            raise RuntimeError(f"Checkpoint {checkpoint_id} failed with exit code {process.exitcode}.")
+            # Process has finished
+            process.join()
+            if process.exitcode != 0:
+                raise RuntimeError(f"Checkpoint {checkpoint_id} failed with exit code {process.exitcode}.")
         return True
 
     @classmethod
-- 
2.43.0


From 3db753cf92b1218e3152a6c4cb59a34f824b907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 24/51] fix: adjust the rows of a mixture along with its chunk
 size

---
 mixtera/core/query/mixture/dynamic_mixture.py             | 5 +++++
 mixtera/core/query/mixture/hierarchical_static_mixture.py | 4 ++++
 mixtera/core/query/mixture/mixture.py                     | 5 +++++
 mixtera/core/query/mixture/mixture_schedule.py            | 6 ++++++
 mixtera/core/query/mixture/static_mixture.py              | 4 ++++
 5 files changed, 24 insertions(+)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..0631170 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -34,6 +34,7 @@ class DynamicMixture(Mixture):
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
             initial_mixture.chunk_size = chunk_size
+            initial_mixture.process_chunk_size()
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
@@ -53,6 +54,10 @@ class DynamicMixture(Mixture):
             }
         )
 
+    def process_chunk_size(self) -> None:
+        self._current_mixture.chunk_size = self.chunk_size
+        self._current_mixture.process_chunk_size()
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..64986dc 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -36,8 +36,12 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._user_mixture = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
+    def process_chunk_size(self) -> None:
+        self._mixture = self.parse_mixture_node(self.chunk_size, self._user_mixture)
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..b2c677d 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -29,6 +29,11 @@ class Mixture(ABC):
         """String representation of this mixture object."""
         return f'{{"mixture": "base_mixture", "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
 
+    def process_chunk_size(self) -> None:
+        """
+        Function that is called after the chunk size has been changed.
+        """
+
     @abstractmethod
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index cc60ed9..91a64cb 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -39,10 +39,16 @@ class MixtureSchedule(Mixture):
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
                 entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.process_chunk_size()
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
 
+    def process_chunk_size(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.chunk_size = self.chunk_size
+            entry.mixture.process_chunk_size()
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..a0b644f 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -35,8 +35,12 @@ class StaticMixture(Mixture):
         # Renormalize to reduce deviance from 1.0 further
         mixture = {key: val / total_weight for key, val in mixture.items()}
 
+        self._user_mixture = mixture
         self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
 
+    def process_chunk_size(self) -> None:
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._user_mixture)
+
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
         """Given a chunk size and user mixture, return an internal adjusted representation
-- 
2.43.0


From be32073bb65347bd478412140a34ebb0106cd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 25/51] fix: apply strictness and feedback of the mixtures in a
 schedule

---
 mixtera/core/query/mixture/mixture.py         |  6 +++++
 .../core/query/mixture/mixture_schedule.py    | 24 +++++++++++++++++++
 mixtera/core/query/query_result.py            |  2 +-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index b2c677d..24101ca 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -54,6 +54,12 @@ class Mixture(ABC):
         """
         raise NotImplementedError("Method must be implemented in subclass!")
 
+    def components(self) -> set[MixtureKey]:
+        """
+        Returns all components the mixture knows about, including ones that are not used currently.
+        """
+        return set(self.mixture_in_rows().keys())
+
     @abstractmethod
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 91a64cb..41210cc 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING
 from loguru import logger
 
 from mixtera.core.query.mixture import Mixture, MixtureKey
+from mixtera.network.client.client_feedback import ClientFeedback
 
 if TYPE_CHECKING:
     from mixtera.core.datacollection.index import ChunkerIndex
@@ -43,6 +44,7 @@ class MixtureSchedule(Mixture):
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
+        self.strict = self.current_mixture.strict
 
     def process_chunk_size(self) -> None:
         for entry in self.schedule:
@@ -68,6 +70,28 @@ class MixtureSchedule(Mixture):
         for entry in self.schedule:
             entry.mixture.process_index(chunker_index)
 
+    def components(self) -> set[MixtureKey]:
+        return set().union(*(entry.mixture.components() for entry in self.schedule))
+
+    def process_client_feedback(self, feedback: ClientFeedback) -> None:
+        """
+        Moves on in the schedule, and passes the feedback on to the mixture for the current training step.
+
+        Args:
+            feedback: The received feedback from training.
+        """
+        self._update_training_step(feedback.training_steps)
+        self.current_mixture.process_client_feedback(feedback)
+        self.strict = self.current_mixture.strict
+
+    def process_id_map(self, key_id_map: dict[MixtureKey, int]) -> None:
+        for entry in self.schedule:
+            entry.mixture.process_id_map(key_id_map)
+
+    def write_logs(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.write_logs()
+
     @property
     def current_mixture(self) -> Mixture:
         """
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 01aff9d..4933717 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -98,7 +98,7 @@ class QueryResult:
         initial_setup = len(self._key_id_map.keys()) == 0
         current_id = 0 if initial_setup else max(self._key_id_map.values()) + 1
 
-        keys = set(self._mixture.mixture_in_rows().keys())
+        keys = self._mixture.components()
 
         if initial_setup:
             # This allows us to have a ID available whenever we switch to a None mixture.
-- 
2.43.0


From 56e5c1800796937e945a2e2d6505bfc9045a1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 26/51] fix: remove what is recorded for a dataset when its
 registration fails

---
 .../core/datacollection/mixtera_data_collection.py  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..5de558d 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -152,6 +152,19 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
+        success = False
+        try:
+            success = self._register_files_of_dataset(dataset_id, identifier, loc, dtype, metadata_parser_type)
+        finally:
+            if not success:
+                logger.error(f"Registration of dataset {identifier} failed, removing what has been recorded for it.")
+                self.remove_dataset(identifier)
+
+        return success
+
+    def _register_files_of_dataset(
+        self, dataset_id: int, identifier: str, loc: str, dtype: Type[Dataset], metadata_parser_type: str
+    ) -> bool:
         files = list(dtype.iterate_files(loc))
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
-- 
2.43.0


From 9b3597d0b95048fe9df12590b1b28053eb6438c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 27/51] fix: escape quotes in the options of ENUM properties

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 5de558d..376e3fa 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -314,7 +314,7 @@ class MixteraDataCollection:
                     if result is None or result[0] == 0:
                         # It is important to sort here,
                         # otherwise across runs (e.g., in unit tests), we get inconsistent ordering.
-                        enum_values = "', '".join(sorted(prop.enum_options))
+                        enum_values = "', '".join(option.replace("'", "''") for option in sorted(prop.enum_options))
                         create_enum_query = f"CREATE TYPE {enum_type_name} AS ENUM ('{enum_values}');"
                         cur.execute(create_enum_query)
                     column_type = f"{enum_type_name}[]" if prop.multiple else enum_type_name
-- 
2.43.0


From 946aeda54609b1b22b61b36f068ecfa65aa1b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 28/51] fix: do not use partially written entries of the query
 cache

---
 mixtera/core/query/query_cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..358b3ca 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -44,14 +44,15 @@ class QueryCache:
         db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata last and atomically, since it marks the entry as complete
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(tmp_meta_path, query_dir / "meta.pkl")
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From e234eb2d8f20cf29da0c18e13ee7a7e9c67612aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 29/51] fix: find valid entries of the query cache next to
 outdated ones

---
 mixtera/core/query/query_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 358b3ca..fa487a7 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -95,7 +95,7 @@ class QueryCache:
                         if not os.listdir(hash_dir):
                             logger.debug(f"Directory for {query_hash} is empty after removing the cache.")
                             shutil.rmtree(hash_dir)
-                        return None
+                        continue
                     logger.debug("Returning results from cache!")
                     # Load the QueryResult from the cache
                     query_result = QueryResult.from_cache(query_dir)
-- 
2.43.0


From c39cd9ea4c9e6bd598f1e5345ea1ebfab3205437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 30/51] fix: cache query results under the version they were
 computed on

---
 mixtera/core/client/local/local_stub.py | 3 ++-
 mixtera/core/query/query_cache.py       | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..a7bb6f6 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -89,8 +89,9 @@ class LocalStub(MixteraClient):
             query.results._key_id_map = {}  # reset map to trigger update of mixture id map
             query.results.update_mixture(args.mixture)
         else:
+            db_version = self._mdc.get_db_version()
             query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
-            cache_path = self._query_cache.cache_query(query)
+            cache_path = self._query_cache.cache_query(query, db_version)
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index fa487a7..4d0aeb0 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -23,7 +23,11 @@ class QueryCache:
         query_string = str(query)
         return hashlib.sha256(query_string.encode()).hexdigest()
 
-    def cache_query(self, query: Query) -> None | Path:
+    def cache_query(self, query: Query, db_version: int | None = None) -> None | Path:
+        """
+        Stores the results of a query. db_version is the version of the database from before executing the query,
+        since the database may change before we get here. Defaults to the current version.
+        """
         if not self.enabled:
             return None
 
@@ -41,7 +45,7 @@ class QueryCache:
         query_dir.mkdir()
 
         # Prepare the cache metadata
-        db_ver = self._mdc.get_db_version()
+        db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
         # Call the to_cache method on query.results to serialize it
-- 
2.43.0


From be8c4227c9d7016b1224f9a7b775afa7da1a36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 31/51] fix: invalidate cached queries before removing a
 dataset

---
 mixtera/core/datacollection/mixtera_data_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 376e3fa..4ff1e00 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -426,6 +426,9 @@ class MixteraDataCollection:
             return False
 
         try:
+            # Invalidate cached queries also if we crash before the version is increased below.
+            self._db_incr_version()
+
             delete_samples_query = """
             DELETE FROM samples
             WHERE dataset_id IN (
-- 
2.43.0


From 2a1d6df3a5c907bde0951846e04d7eb5ebd2c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 32/51] fix: ignore unreadable entries of the query cache

---
 mixtera/core/query/query_cache.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 4d0aeb0..ff41d69 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -87,10 +87,14 @@ class QueryCache:
                     logger.warning(f"Meta file missing, invalid query dir? ({query_dir})")
                     continue
 
-                with meta_path.open("rb") as f:
-                    cache_obj = pickle.load(f)
-                    cached_query_str = cache_obj.get("query_str")
-                    db_ver = cache_obj.get("db_version")
+                try:
+                    with meta_path.open("rb") as f:
+                        cache_obj = pickle.load(f)
+                        cached_query_str = cache_obj.get("query_str")
+                        db_ver = cache_obj.get("db_version")
+                except Exception as e:  # pylint: disable=broad-exception-caught
+                    logger.warning(f"Cannot read {meta_path}, ignoring this entry: {e}")
+                    continue
 
                 if cached_query_str == str(query):
                     if db_ver != self._mdc.get_db_version():
@@ -102,7 +106,11 @@ class QueryCache:
                         continue
                     logger.debug("Returning results from cache!")
                     # Load the QueryResult from the cache
-                    query_result = QueryResult.from_cache(query_dir)
+                    try:
+                        query_result = QueryResult.from_cache(query_dir)
+                    except Exception as e:  # pylint: disable=broad-exception-caught
+                        logger.warning(f"Cannot load the query result from {query_dir}, ignoring this entry: {e}")
+                        continue
                     return query_result, query_dir
 
                 logger.debug(f"Cached query does not match: '{cached_query_str}' != '{str(query)}'.")
-- 
2.43.0


From 60816293ea6a684d307a4fc60ed104fc36f3900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 33/51] fix: register datasets one after another at the server

---
 mixtera/network/server/server.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..ad0db9e 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -195,14 +195,16 @@ class MixteraServer:
         parsing_func: typing.Callable[[str], str],
         metadata_parser_identifier: str,
     ) -> None:
-        try:
-            success = await asyncio.to_thread(
-                self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
-            )
-            self._dataset_registration[job_id] = success
-        except Exception:  # pylint: disable=broad-exception-caught
-            logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
-            self._dataset_registration[job_id] = False
+        # All background tasks share the connection to the database, so only one of them may use it at a time
+        async with self._register_query_lock:
+            try:
+                success = await asyncio.to_thread(
+                    self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
+                )
+                self._dataset_registration[job_id] = success
+            except Exception:  # pylint: disable=broad-exception-caught
+                logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
+                self._dataset_registration[job_id] = False
 
     async def _check_dataset_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-- 
2.43.0


From 1ec22445df205635e7fc9f38133ed0b41d0774b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 34/51] fix: reject queries of existing jobs without losing the
 status of the job

---
 mixtera/network/server/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index ad0db9e..4c62e0d 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -56,7 +56,7 @@ class MixteraServer:
         self._chunk_distributor_map_lock = asyncio.Lock()
         self._register_query_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
-        self._query_registration: dict[str, bool] = {}
+        self._query_registration: dict[str, bool | None] = {}  # None: in progress
 
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -86,6 +86,12 @@ class MixteraServer:
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        if self._query_registration.get(query.job_id, False) is not False:
+            logger.error(f"There already is a query for job {query.job_id}, rejecting the new one.")
+            await write_utf8_string("", NUM_BYTES_FOR_IDENTIFIERS, writer)
+            return
+
+        self._query_registration[query.job_id] = None
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -390,7 +396,7 @@ class MixteraServer:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
         chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.
+        self._query_registration[job_id] = None  # Otherwise, we immediately return True.
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
-- 
2.43.0


From 594b301d5e36fc692385c573c68febde4aabe223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 35/51] fix: tell clients if the server did not process their
 feedback

---
 mixtera/network/server/server.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 4c62e0d..01318b3 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -438,9 +438,7 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = self._local_stub.process_feedback(job_id, feedback)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 2fe9661cd7346c2c8e0e34cea4b0487a2d361b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 36/51] fix: do not block the server while waiting for a job

---
 mixtera/network/server/server.py | 41 +++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 01318b3..bd6be31 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -125,6 +125,28 @@ class MixteraServer:
         await write_utf8_string(file_data, NUM_BYTES_FOR_SIZES, writer, drain=False)
         await writer.drain()
 
+    async def _call_for_job(
+        self, job_id: str, func: typing.Callable[..., typing.Any], *args: typing.Any, **kwargs: typing.Any
+    ) -> typing.Any:
+        """
+        Calls a function of the local stub which waits for the job to be known.
+        This function ensures that the server continues to serve other clients while waiting.
+
+        Args:
+            job_id (str): The identifier of the job.
+            func (Callable): The function of the local stub.
+
+        Returns:
+            The result of the function.
+        """
+        while self._query_registration.get(job_id, False) is None:
+            await asyncio.sleep(0.1)
+
+        if job_id in self._local_stub._training_query_map:
+            return func(*args, **kwargs)
+
+        return await asyncio.to_thread(func, *args, **kwargs)
+
     async def _return_next_result_chunk(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
         Sends the next chunk of results for a given job ID to the client.
@@ -138,9 +160,10 @@ class MixteraServer:
         node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         worker_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        async with self._chunk_distributor_map_lock:
-            if job_id not in self._chunk_distributor_map:
-                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
+        if job_id not in self._chunk_distributor_map:
+            distributor = await self._call_for_job(job_id, self._local_stub._get_query_chunk_distributor, job_id)
+            async with self._chunk_distributor_map_lock:
+                self._chunk_distributor_map.setdefault(job_id, distributor)
 
         next_chunk = None
         try:
@@ -159,7 +182,9 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_dict, parsing_dict, file_path_dict = self._local_stub._get_result_metadata(job_id)
+        dataset_dict, parsing_dict, file_path_dict = await self._call_for_job(
+            job_id, self._local_stub._get_result_metadata, job_id
+        )
 
         meta = {
             "dataset_type": dataset_dict,
@@ -376,7 +401,9 @@ class MixteraServer:
             status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
             worker_status.append(status)
 
-        chkpnt_id = self._local_stub.checkpoint(job_id, dp_group_id, node_id, worker_status, server=True)
+        chkpnt_id = await self._call_for_job(
+            job_id, self._local_stub.checkpoint, job_id, dp_group_id, node_id, worker_status, server=True
+        )
 
         await write_utf8_string(chkpnt_id, NUM_BYTES_FOR_SIZES, writer)
 
@@ -388,7 +415,9 @@ class MixteraServer:
         on_disk_flag = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         on_disk = bool(on_disk_flag)
 
-        is_completed = self._local_stub.checkpoint_completed(job_id, chkpnt_id, on_disk)
+        is_completed = await self._call_for_job(
+            job_id, self._local_stub.checkpoint_completed, job_id, chkpnt_id, on_disk
+        )
 
         await write_int(int(is_completed), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From 0bfd1108f512493410f137959c38923f4b3254bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:21 +0000
Subject: [PATCH 37/51] fix: do not take a failed request for the end of the
 chunks

---
 mixtera/network/connection/server_connection.py | 8 +++++---
 mixtera/network/network_utils.py                | 9 +++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..4ad35e3 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -222,13 +222,15 @@ class ServerConnection:
             job_id (str): The identifier of the job for which the next result chunk is requested.
 
         Returns:
-            An ResultChunk object representing the next result chunk,
-            or None if there are no more results or the connection fails.
+            An ResultChunk object representing the next result chunk, or None if there are no more results.
+
+        Raises:
+            ConnectionError: If the connection fails, since this must not be taken for the end of the results.
         """
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return None
+                raise ConnectionError("Could not connect to the server.")
 
             # Announce we want to get a result chunk
             await write_int(int(ServerTask.GET_NEXT_RESULT_CHUNK), NUM_BYTES_FOR_IDENTIFIERS, writer)
diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..7d3193d 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -93,10 +93,10 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
         reader (asyncio.StreamReader): The stream reader to read the data from.
 
     Returns:
-        bytes | None: The read bytes object, or None if the size header indicated zero length
-                      or if an error occurred during reading.
+        bytes | None: The read bytes object, or None if the size header indicated zero length.
 
     Raises:
+        ConnectionError: If the connection was closed before the object was read.
         asyncio.TimeoutError: If a timeout occurs while reading (inherited from read_int and read_bytes).
 
     Note:
@@ -106,8 +106,9 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
     if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
         if obj_size == 0:
             return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
-    return None
+        if (data := await read_bytes(obj_size, reader, timeout=timeout)) is not None:
+            return data
+    raise ConnectionError("Connection closed before an object could be read.")
 
 
 async def read_int(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> Optional[int]:
-- 
2.43.0


From 57f498e01ae0e4d7a4f698805a15cc481179e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 38/51] fix: write message lengths the way they are read

---
 mixtera/network/network_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 7d3193d..4909348 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -74,7 +74,7 @@ async def write_bytes_obj(
         zero_len = 0
         writer.write(zero_len.to_bytes(size_bytes, "big"))
     else:
-        writer.write(len(data).to_bytes(size_bytes, "big"))
+        writer.write(len(data).to_bytes(size_bytes, "big", signed=True))
         writer.write(data)
 
     if drain:
@@ -173,7 +173,7 @@ async def write_utf8_string(string: str, size_bytes: int, writer: asyncio.Stream
     """
 
     training_id_bytes = string.encode(encoding="utf-8")
-    writer.write(len(training_id_bytes).to_bytes(size_bytes, "big"))
+    writer.write(len(training_id_bytes).to_bytes(size_bytes, "big", signed=True))
     writer.write(training_id_bytes)
 
     if drain:
@@ -190,7 +190,7 @@ async def write_pickeled_object(obj: Any, size_bytes: int, writer: asyncio.Strea
         drain (bool): Whether to call writer.drain() afterwards. Defaults to True.
     """
     obj_bytes = dill.dumps(obj)
-    writer.write(len(obj_bytes).to_bytes(size_bytes, "big"))
+    writer.write(len(obj_bytes).to_bytes(size_bytes, "big", signed=True))
     writer.write(obj_bytes)
 
     if drain:
-- 
2.43.0


From 33f51ecf4fc0aa558905679f8b28d084d8112c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 39/51] fix: report failed reader processes and round window
 shares exactly (C18)

---
 mixtera/core/query/result_chunk.py | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 4a3c5c8..2d8666b 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -4,6 +4,7 @@ import multiprocessing as mp
 import os
 import random
 import textwrap
+import traceback
 import typing
 from itertools import islice
 from queue import Empty
@@ -48,6 +49,14 @@ class _EndOfStream:
 
 END_OF_STREAM_OBJECT = _EndOfStream()
 
+
+class _ReaderError:
+    """Tells the consumer that a reader process failed."""
+
+    def __init__(self, message: str) -> None:
+        self.message = message
+
+
 original_start = mp.Process.start
 
 
@@ -382,9 +391,7 @@ class ResultChunk:
                     instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                 except Empty as exc:
                     if not proc.is_alive():
-                        proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
+                        raise RuntimeError("A reader process ended without reading all of its samples.") from exc
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
@@ -392,6 +399,9 @@ class ResultChunk:
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
+                if isinstance(instance, _ReaderError):
+                    proc.join()
+                    raise RuntimeError(f"A reader process failed:\n{instance.message}")
                 yield instance
 
             for queue, proc in processes_to_remove:
@@ -492,7 +502,7 @@ class ResultChunk:
 
         # Determine the per-property combination batch counts
         initial_counts = [
-            (key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()
+            (key, self._window_size * value // self._chunk_size) for key, value in self._mixture.items()
         ]
         total_counts = sum(count for _, count in initial_counts)
         remainder = self._window_size - total_counts
@@ -604,11 +614,17 @@ class ResultChunk:
                 return
 
             filename_dict = {file_path_dict[file_id]: ranges}
-            instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
-                filename_dict, parsing_func_dict[dataset_id], server_connection
-            )
-            for instance in instance_iterator:
-                queue.put(instance)
+            try:
+                instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
+                    filename_dict, parsing_func_dict[dataset_id], server_connection
+                )
+                for instance in instance_iterator:
+                    queue.put(instance)
+            except Exception:
+                # Without this, the consumer would neither get the remaining samples nor learn about it.
+                queue.put(_ReaderError(traceback.format_exc()))
+                queue.close()
+                raise
 
         queue.put(END_OF_STREAM_OBJECT)
 
-- 
2.43.0


From bf6e9a7236e0ba55a165845f7a81f784907f1b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 40/51] fix: do not take a prefetched sample that is None for
 the end (C18)

---
 mixtera/utils/prefetch_iterator.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 7802ce7..e7defc1 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -17,10 +17,8 @@ class PrefetchFirstItemIterator(Iterator[T]):
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
         except BaseException as ex:  # pylint: disable=broad-exception-caught
-            self.exception = ex  # raised when the first item is requested
+            self.exception = ex  # raised when the first item is requested (including StopIteration)
         finally:
             self.prefetch_event.set()
 
@@ -31,9 +29,6 @@ class PrefetchFirstItemIterator(Iterator[T]):
             if self.exception is not None:
                 raise self.exception
 
-            if self.first_item is not None:
-                return self.first_item
-
-            raise StopIteration()
+            return self.first_item  # type: ignore
 
         return next(self.iterator)
-- 
2.43.0


From 93c7469cec1a6c32ca760b3ab0ad3719e119aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 41/51] fix: let reader processes pass on samples that are
 arrays (C18)

---
 mixtera/core/query/result_chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 2d8666b..8cc94ca 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -395,7 +395,7 @@ class ResultChunk:
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                if END_OF_STREAM_OBJECT == instance:  # in this order, as samples may be arrays
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
-- 
2.43.0


From c441cb3e7b362fb45b0705daabb10ad9709897d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 42/51] fix: do not skip samples if a file is shorter than
 expected or cannot be fetched (C18)

---
 mixtera/core/datacollection/datasets/jsonl_dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/datacollection/datasets/jsonl_dataset.py b/mixtera/core/datacollection/datasets/jsonl_dataset.py
index 30d5388..ca3c65a 100644
--- a/mixtera/core/datacollection/datasets/jsonl_dataset.py
+++ b/mixtera/core/datacollection/datasets/jsonl_dataset.py
@@ -1,4 +1,3 @@
-import itertools
 import json
 from pathlib import Path
 from typing import Callable, Iterable, Optional
@@ -51,6 +50,7 @@ class JSONLDataset(Dataset):
         server_connection: Optional[ServerConnection],
     ) -> Iterable[str]:
         with FileSystem.open_file(file, server_connection=server_connection) as text_file:
+            lines = iter(text_file)
             last_line_read = 0
             last_r_start = -1
             for r_start, r_end in range_list:
@@ -65,11 +65,15 @@ class JSONLDataset(Dataset):
                 # Skip lines to reach the start of the new range if necessary
                 if r_start > last_line_read:
                     for _ in range(r_start - last_line_read):
-                        next(text_file, None)
+                        next(lines, None)
                     last_line_read = r_start
 
                 # Yield the lines in the current range
-                yield from (parsing_func(line) for line in itertools.islice(text_file, r_end - r_start))
+                for line_id in range(r_start, r_end):
+                    # Also ends early if the connection to the server serving the file fails.
+                    if (line := next(lines, None)) is None:
+                        raise RuntimeError(f"Cannot read line {line_id} of {file}: only got {line_id} lines.")
+                    yield parsing_func(line)
                 last_line_read = r_end
 
     @staticmethod
-- 
2.43.0


From e038c4cea5180015da4c48532509fd7bc5213d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 43/51] fix: end files read via the server after their last
 line (C19)

---
 mixtera/network/connection/server_connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 4ad35e3..070d7ca 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -1,5 +1,6 @@
 import asyncio
 import inspect
+import io
 import socket
 from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Any, AsyncGenerator, Callable, Generator, Iterable, Optional, Type
@@ -85,7 +86,8 @@ class ServerConnection:
         if (lines := run_async_until_complete(self._fetch_file(file_path))) is None:
             return
 
-        yield from lines.split("\n")
+        for line in io.StringIO(lines, newline="\n"):
+            yield line.removesuffix("\n")
 
     @asynccontextmanager
     async def _connect_to_server(
-- 
2.43.0


From d3e69f8b04b7b84a81fbbe112841fde161ed9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 44/51] fix: round hierarchical mixtures like static ones (C22)

---
 .../query/mixture/hierarchical_static_mixture.py   | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 64986dc..0fb6604 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -3,6 +3,7 @@ from typing import TYPE_CHECKING, List
 
 from mixtera.core.query.mixture.mixture import Mixture
 from mixtera.core.query.mixture.mixture_key import MixtureKey
+from mixtera.core.query.mixture.static_mixture import StaticMixture
 
 if TYPE_CHECKING:
     from mixtera.core.datacollection.index import ChunkerIndex
@@ -48,17 +49,8 @@ class HierarchicalStaticMixture(Mixture):
 
     def parse_mixture_node(self, chunk_size: int, user_mixture: MixtureNode) -> dict[MixtureKey, int]:
         formatted_user_mixture = self.convert_to_mixture_key_format(user_mixture)
-        for key, val in formatted_user_mixture.items():
-            assert val >= 0, "Mixture values must be non-negative."
-            assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
-
-        mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
-
-        # Ensure approximation errors do not affect final chunk size
-        if (diff := chunk_size - sum(mixture.values())) > 0:
-            mixture[list(mixture.keys())[0]] += diff
-
-        return mixture
+        # Rounds such that approximation errors neither affect the final chunk size nor accumulate in one component
+        return StaticMixture.parse_user_mixture(chunk_size, formatted_user_mixture)
 
     def convert_to_mixture_key_format(self, mixture: MixtureNode) -> dict[MixtureKey, float]:
         mixture_keys = {}
-- 
2.43.0


From e34aa1675007a82da4a6595a3f00e6586fcec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 45/51] fix: hash mixture components with numeric values (C23)

---
 mixtera/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..1372003 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -130,7 +130,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
         value_list.sort()
 
         # Concatenate the sorted list of strings with a separator
-        concatenated_values = "\0".join(value_list)
+        concatenated_values = "\0".join(map(str, value_list))
 
         # Create a string representation of the key-value pair
         concatenated_item = f"{key}:{concatenated_values}"
-- 
2.43.0


From 1ab15c8e33efb39eb3f84f4442721a41d4920e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 46/51] fix: do not report positions from released shared
 memory (C24)

---
 mixtera/torch/mixtera_torch_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..7a83faf 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -238,7 +238,8 @@ class MixteraTorchDataset(IterableDataset):
 
     @property
     def worker_status(self) -> list[int] | None:
-        if self._status_shm is None:
+        if self._status_shm is None or self._status_shm.buf is None:
+            # There is nothing (anymore) to read from. Without a buffer, numpy returns uninitialized memory.
             return None
 
         try:
-- 
2.43.0


From 2287dd9baaa730fce3804e21bb23228f93c4327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 47/51] fix: refuse ImageNet samples without class label (C26)

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From 25260696b62aca0ef4fa767d6a9c48fa8aba2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 48/51] fix: ADO with components that have no data yet or
 arrive later (C25)

---
 mixtera/core/algo/ado/ado.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..85ec83e 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -593,6 +593,12 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             losses: A numpy array of losses per domain.
             counts: A numpy array of counts per domain.
         """
+        # There may be less domains in this step than we know of (e.g., because their IDs are higher than all current ones).
+        num_known_domains = max(len(self.losses), len(self.initial_mixture))
+        if (missing := num_known_domains - len(losses)) > 0:
+            losses = np.concatenate([losses, np.zeros(missing, dtype=losses.dtype)])
+            counts = np.concatenate([counts, np.zeros(missing, dtype=counts.dtype)])
+
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
         num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
@@ -617,6 +623,9 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # There is no data to fit yet, as in fit_scaling_law_for_domain.
+                self.scaling_law_params = np.concatenate([self.scaling_law_params, np.full((size_diff, 3), -1.0)])
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
@@ -635,8 +644,6 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         self.per_step_losses.append(per_step_losses)
 
         if self.use_same_step_size:
-            num_valid_domains: int = np.sum(self.counts > 0)
-            assert num_valid_domains > 0
             total_tokens = counts.sum()
             increment = np.zeros_like(counts, dtype=counts.dtype)
             increment[self.counts > 0] = int(total_tokens)
-- 
2.43.0


From 3b8efc37366a4f598cbd069e59dd33d52264ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 49/51] fix: keep the mixture id when a worker's stream ends
 (C27)

---
 mixtera/core/client/mixtera_client.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/client/mixtera_client.py b/mixtera/core/client/mixtera_client.py
index b7648c9..516558a 100644
--- a/mixtera/core/client/mixtera_client.py
+++ b/mixtera/core/client/mixtera_client.py
@@ -1,3 +1,4 @@
+import hashlib
 import multiprocessing as mp
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
@@ -136,6 +137,8 @@ class MixteraClient(ABC):
 
     def __init__(self) -> None:
         self.current_mixture_id_val = mp.Value("i", -1)
+        # Identifies the job which current_mixture_id_val belongs to. Protected by the lock of current_mixture_id_val.
+        self._current_mixture_job_val = mp.Value("Q", 0, lock=False)
         logger.debug("Initialized current mixture id to -1.")
 
     @property
@@ -276,9 +279,16 @@ class MixteraClient(ABC):
         Raises:
             RuntimeError if query has not been executed.
         """
+        # The id is shared with the other workers of this job, and the training loop may still report on their data (and
+        # on prefetched data of this worker) when this stream ends. Hence, the id is kept until the next job starts.
+        job_key = int.from_bytes(hashlib.blake2b(args.job_id.encode("utf-8"), digest_size=8).digest(), "big")
+
         for result_chunk in self._stream_result_chunks(args.job_id, args.dp_group_id, args.node_id, args.worker_id):
             with self.current_mixture_id_val.get_lock():
-                new_id = max(result_chunk.mixture_id, self.current_mixture_id_val.get_obj().value)
+                new_id = result_chunk.mixture_id
+                if self._current_mixture_job_val.value == job_key:
+                    new_id = max(new_id, self.current_mixture_id_val.get_obj().value)
+                self._current_mixture_job_val.value = job_key
                 self.current_mixture_id_val.get_obj().value = new_id
                 # logger.debug(f"Set current mixture ID to {new_id}")
 
@@ -288,10 +298,6 @@ class MixteraClient(ABC):
             )
             yield from result_chunk
 
-        with self.current_mixture_id_val.get_lock():
-            self.current_mixture_id_val.get_obj().value = -1
-            # logger.debug("Reset current mixture ID to -1.")
-
     @abstractmethod
     def _stream_result_chunks(
         self, job_id: str, dp_group_id: int, node_id: int, worker_id: int
-- 
2.43.0


From 47ca79bd0e5fa60c7256b2da7b5a97d3ba647b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 50/51] fix: restored jobs without data loader workers can be
 checkpointed again (C24)

---
 mixtera/core/query/chunk_distributor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index a707e9e..f327434 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -371,6 +371,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -641,6 +642,7 @@ class ChunkDistributor:
         )
 
         # Restore the state
+        chunk_distributor._og_num_workers = state.get("_og_num_workers", chunk_distributor._og_num_workers)
         chunk_distributor._chunk_cache = state["chunk_cache"]
         chunk_distributor._chunk_usage = state["chunk_usage"]
         chunk_distributor._next_chunk = state["next_chunk"]
-- 
2.43.0


From 9177eae1403ee120cdd35dc40e55011968697ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 51/51] fix: Hugging Face datasets end in data loader workers
 without a split (C24)

---
 mixtera/hf/mixtera_hf_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/hf/mixtera_hf_dataset.py b/mixtera/hf/mixtera_hf_dataset.py
index 62a7889..7c1491c 100644
--- a/mixtera/hf/mixtera_hf_dataset.py
+++ b/mixtera/hf/mixtera_hf_dataset.py
@@ -180,6 +180,6 @@ class MixteraHFDataset(datasets.IterableDataset):
 
         yield from super().__iter__()
         logger.info(
-            f"[{self._ex_iterable._dp_group_id}-{self._ex_iterable._node_id}-{self._ex_iterable.worker_id}]"
-            + " Finished yielding."
+            f"[{self._ex_iterable._dp_group_id}-{self._ex_iterable._node_id}"
+            + f"-{MixteraTorchDataset.worker_id.fget(self._ex_iterable)}] Finished yielding."  # type: ignore
         )
-- 
2.43.0

