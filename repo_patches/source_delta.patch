From 63f3221a1425baa2b8d09972481f1222626efe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 01/43] fix: do not nominate writers for eviction while the
 pool is under capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..6fcf0bc 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -86,7 +86,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(0, len(self.writers) - self.pool_size)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From 71a42519884248be6df5dce8c12b4bab07e88490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 02/43] fix: count a row as buffered only once the buffer holds
 it

---
 mabel/data/writers/internals/blob_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..657b0e7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,8 +53,8 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
         self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
         # if this write would exceed the blob size, close it
         if self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
-- 
2.43.0


From 6203b7a837200ca1ade96a43e52eed25c4e44688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 03/43] fix: match the partition_filter field against whole
 'by' folder names

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..d3a40d6 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From ed25f4ba0238acfe0593adaecf1575027d19629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 04/43] fix: keep partition folders which share a prefix apart
 when selecting frames

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index d3a40d6..db7d904 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From faf480f91c47ef80310733b0df5f468c461b88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 05/43] fix: keep frames whose names share a prefix apart when
 selecting frames

---
 mabel/data/readers/internals/base_inner_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index db7d904..6ae7c62 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -185,10 +185,10 @@ class BaseInnerReader(abc.ABC):
                         as_at = as_ats.pop()
 
                         is_complete = lambda blobs: any(
-                            [blob for blob in blobs if as_at + "/frame.complete" in blob]
+                            [blob for blob in blobs if "/" + as_at + "/frame.complete" in blob]
                         )
                         is_invalid = lambda blobs: any(
-                            [blob for blob in blobs if (as_at + "/frame.ignore" in blob)]
+                            [blob for blob in blobs if ("/" + as_at + "/frame.ignore" in blob)]
                         )
 
                         while not is_complete(partitioned_blobs) or is_invalid(partitioned_blobs):
@@ -215,7 +215,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if ("/" + as_at + "/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 73f8557fdefdc6281aefc62a0c71a9ae9a24ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 06/43] fix: return empty records from compressed memory

---
 .../storage_classes/storage_class_compressed_memory.py        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..d2cd137 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -63,9 +63,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
         else:
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
-                for record in records:
-                    if record:
-                        yield record
+                yield from records
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From dbeddfe8b0be57ae40921e4446908395b9faf2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 07/43] fix: allow an empty data set to be persisted to disk

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..cd77b99 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -53,6 +53,9 @@ class StorageClassDisk(BaseStorageClass):
         MMAP is by far the fastest way to read files in Python.
         """
         with open(self.file, mode="rb") as file_obj:
+            if self.length == 0:
+                # an empty file can't be mapped
+                return
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
                 while line:
-- 
2.43.0


From 1a60cea5821edb23d05ed5c8aee2622a2480c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 08/43] fix: get items from data sets held in memory and from
 generators

---
 mabel/data/internals/dictset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..25bb2a4 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -337,10 +337,9 @@ class DictSet(object):
             yield from [self._iterator[i] for i in locations]
             return
 
-        if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
-                if i in locations:
-                    yield r
+        for i, r in enumerate(iter(self._iterator)):
+            if i in locations:
+                yield r
 
     def to_ascii_table(self, limit: int = 5):
         """
-- 
2.43.0


From b6577d7c4ab11e670ff50d42e5dd1644321bcdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 09/43] fix: iterate a DictSet from its first record each time
 it is iterated

---
 mabel/data/internals/dictset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 25bb2a4..d305871 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,6 +117,10 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        if not hasattr(self._iterator, "__next__"):
+            return iter(self._iterator)
+        # start persisted records from the first one, this does nothing to generators
+        iter(self._iterator)
         return self
 
     def __next__(self):
-- 
2.43.0


From 9c5b1584acfbd3659781405ed064560806e8646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 10/43] fix: take no records when asked for none

---
 mabel/data/internals/dictset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index d305871..966c287 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -397,6 +397,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
-- 
2.43.0


From fb34a6f61716eeb1ac64adf741fb2f6c9c971513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 11/43] fix: tell records with different fields, values or
 types apart in distinct

---
 mabel/data/internals/dictset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 966c287..e433ad9 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -299,13 +299,9 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    hashed_item = tuple(repr(item[c]) if c in item else None for c in columns)
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    hashed_item = frozenset((k, repr(v)) for k, v in item.items())
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From b0ef276ad1b923359aad29ea1c15b575269de163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 12/43] fix: accept ORDER BY without a direction before LIMIT

---
 mabel/data/readers/internals/sql_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..0909bf4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -215,7 +215,6 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-- 
2.43.0


From 93b1c3ae8c53a245584ffe9b520606d2378a1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 13/43] fix: refuse SQL statements with unexpected tokens
 instead of looping forever

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 0909bf4..056cb09 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -219,6 +219,8 @@ class SqlParser:
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Unexpected token in statement - `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From 584bff0b7b3995cb1ea28c38d435d8c38dbbb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 14/43] fix: honour LIMIT 0

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 056cb09..1e9d6e4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -342,14 +342,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From 05f8ceed4ae9723bc5f13744982df90dc2f49359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 15/43] fix: keep groups apart when their values read the same
 joined together

---
 mabel/data/internals/group_by.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..62e51d0 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -73,12 +73,12 @@ class GroupBy:
         for record in self._dictset:
             try:
                 group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
+                    repr([str(record[column]) for column in self._columns]),
                     HASH_SEED
                 )
             except KeyError:
                 group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
+                    repr([f"{record.get(column, '')}" for column in self._columns]),
                     HASH_SEED,
                 )
             if group_key not in self._group_keys.keys():
-- 
2.43.0


From ec2e5c1fe106b694cb7fba5b7e771685e356156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 16/43] fix: aggregate zeros like any other value

---
 mabel/data/internals/group_by.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 62e51d0..72a8443 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -142,11 +142,8 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
-                        value = AGGREGATORS[func](existing, value)
-                    else:
-                        value = existing
+                if existing is not None:
+                    value = AGGREGATORS[func](existing, value)
                 elif func == "COUNT":
                     # the COUNT needs seeding with 1, the next cycles are just
                     # adding 1 to the last value.
-- 
2.43.0


From 5851e3c0e4782f5ce6007668615e237b2c7fa714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 17/43] fix: do not aggregate a column twice when its average
 is also wanted

---
 mabel/data/internals/group_by.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 72a8443..13c81c8 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -117,9 +117,12 @@ class GroupBy:
         requested_aggs = aggregations.copy()
 
         # averages need the sum and the count
-        for func, col in aggregations:
+        aggregations = list(dict.fromkeys(aggregations))
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                aggregations += [
+                    agg for agg in (("SUM", col), ("COUNT", col)) if agg not in aggregations
+                ]
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From d6cd0032d81d780296fe9d277930f9bf5e2dbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 18/43] fix: report groups in which an aggregated column has no
 values

---
 mabel/data/internals/group_by.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 13c81c8..1558ddb 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -158,16 +158,18 @@ class GroupBy:
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
-        collector = dict(sorted(collector.items()))
+        collector = {group: collector[group] for group in sorted(self._group_keys)}
 
         # We now need to expand out the hashed column names
         for group, results in collector.items():
             for func, col in requested_aggs:
                 if func == "AVG":
-                    results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
+                    if results.get(f"COUNT({col})"):
+                        results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-                f"{func}({col})": results.get(f"{func}({col})") for func, col in requested_aggs
+                f"{func}({col})": results.get(f"{func}({col})", 0 if func == "COUNT" else None)
+                for func, col in requested_aggs
             }
 
             keys = self._group_keys[group]
-- 
2.43.0


From 81027355b1cdf3f20b767615bf371c057fa945f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 19/43] fix: step over a NULL when parsing an expression

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From 2db6090fb5e7e9afa387291c70c50491588b29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 20/43] fix: refuse expressions which have tokens left over

---
 mabel/data/internals/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..a00731e 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -47,6 +47,8 @@ class Expression(object):
 
     def parse(self):
         self.root = self.parse_expression()
+        if self.tokenizer.has_next():
+            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def parse_expression(self):
         andTerm1 = self.parse_and_term()
-- 
2.43.0


From 642c7c08d9e3b356f955fd47f8ec0222c9aebedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 21/43] fix: do not fail when a value is compared with LIKE to
 something other than text

---
 mabel/data/internals/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index a00731e..b27014e 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -245,7 +245,7 @@ class Expression(object):
         if treeNode.token_type == TOKENS.OPERATOR:
             try:
                 return OPERATORS[treeNode.value](left, right)
-            except (TypeError, ValueError):
+            except (TypeError, ValueError, AttributeError):
                 return None
         if treeNode.token_type == TOKENS.AND:
             return left and right
-- 
2.43.0


From ca4883c5ad115c635ca3bca776eff840b73f92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 22/43] fix: keep every leaf when flattening records with lists

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 46bb98387b38d79bd35f8daba3a9c44fb1345e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 23/43] fix: match the whole of a multi-line value with LIKE

---
 mabel/utils/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..2c851b5 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,7 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL)
 
 
 def like(x, y):
-- 
2.43.0


From 802ba877b3f0de68eef9428d337c30bcbf030d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 24/43] fix: return None for timestamps which are out of range

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..f280d0f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -130,7 +130,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From 5bc3186238e0a4013192ccaefe5fb73c086d2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 25/43] fix: render and escape values which are not text in
 HTML tables

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From a01c0188e8cee1ef99a979b9cc48ea56fe547db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 26/43] fix: show no rows in a HTML table limited to none

---
 mabel/data/internals/display.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a6feed2..171d5af 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -1,3 +1,4 @@
+from itertools import islice
 from typing import Any
 from typing import Dict
 from typing import Iterable
@@ -55,11 +56,9 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
     rows = []
     columns = []  # type:ignore
     i = -1
-    for i, row in enumerate(iter(dictset)):
+    for i, row in enumerate(islice(iter(dictset), limit)):
         rows.append(row)
         columns = columns + list(row.keys())
-        if (i + 1) == limit:
-            break
     columns = set(columns)  # type:ignore
 
     import types
-- 
2.43.0


From 68807f6e01c17e87ac9070aff3af39c7c8c07917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 27/43] fix: read a last zstandard line which has no newline

---
 mabel/data/readers/internals/decompressors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..acf87bc 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,10 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+        lines = file.read().split(b"\n")
+        if lines[-1] == b"":
+            lines.pop()
+        yield from lines
 
 
 def lzma(stream):
-- 
2.43.0


From c71cb280634fa61949b1040615c4c0394d2aabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 28/43] fix: read CSV values which contain newlines

---
 mabel/data/readers/internals/decompressors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index acf87bc..1d5012c 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -76,5 +76,6 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From 0d233cb8aee2bcd96d8b4631dd841ecfa50ff091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 29/43] fix: keep the text of literals in expressions as it is
 written

---
 mabel/utils/token_labeler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..f0da41a 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -204,7 +204,7 @@ def build_splitter():
     for item in ["(", ")", "[", "]", ",", "*"]:
         keywords.append("".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))
     splitter = re.compile(
-        r"(" + r"|".join(keywords) + r")",
+        r"('[^']*'|\"[^\"]*\"|`[^`]*`|" + r"|".join(keywords) + r")",
         re.IGNORECASE,
     )
     return splitter
@@ -302,10 +302,10 @@ class Tokenizer:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, outside of quotes
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`)|\s+")
+        return whitespace_cleaner.sub(lambda match: match.group(1) or " ", string).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From a34b62fc3a41ef9d6cbe009ae6839b46f273e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 30/43] fix: keep the text of literals in SQL statements as it
 is written

---
 mabel/data/readers/internals/sql_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 1e9d6e4..9611e4f 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -76,7 +76,7 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            r"('[^']*'|\"[^\"]*\"|`[^`]*`|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -86,10 +86,10 @@ class SqlParser:
 
     def clean_statement(self, string):
         """
-        Remove carriage returns and all whitespace to single spaces
+        Remove carriage returns and all whitespace to single spaces, outside of quotes
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`)|\s+")
+        return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
         pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-- 
2.43.0


From 1fc3e84be713a335ef0d73f6cb51394ab05803e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 31/43] fix: keep leaves under an empty key apart when
 flattening records

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index e7cac4d..de17a74 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -76,7 +76,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
     """
     items = []
     for key, value in dictionary.items():
-        new_key = str(parent_key) + separator + key if parent_key else key
+        new_key = key if parent_key is False else str(parent_key) + separator + key
         if hasattr(value, "items"):
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
-- 
2.43.0


From 44373a8d07dab4a9560dd6e1f67ff29c9e7ee243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 32/43] fix: keep literals in select expressions intact

---
 mabel/data/readers/internals/inline_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..5beb6ae 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -229,7 +229,7 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        reg = re.compile(r"('[^']*'|\"[^\"]*\"|`[^`]*`|\(|\)|,|\bAS\b)", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From f8855e43c9cbe88adf7e83a996ca67bbc5be23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 33/43] fix: remember a reported failure when the final commit
 fails as well

---
 mabel/data/writers/batch_writer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/batch_writer.py b/mabel/data/writers/batch_writer.py
index 6f3a351..b482ca8 100644
--- a/mabel/data/writers/batch_writer.py
+++ b/mabel/data/writers/batch_writer.py
@@ -104,12 +104,14 @@ class BatchWriter(Writer):
 
     def finalize(self, **kwargs):
 
-        final = super().finalize()
-
+        # remember the failure first, storing the buffered records may fail as well
         has_failure = bool(kwargs.get("has_failure", False))
-
         if has_failure:
             self.seen_failures = True
+
+        final = super().finalize()
+
+        if has_failure:
             get_logger().debug(f"Error found in the stack, not marking frame as complete.")
             return -1
 
-- 
2.43.0


From 56b5475f1138fa4a337e639e502c14b7842264dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 34/43] fix: keep database batches within the batch size after
 a refused batch

---
 mabel/data/writers/database_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..bad2e80 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -97,6 +97,10 @@ class DatabaseWriter:
 
             de.evaluate_record(self.expectations, record)
 
+        # if the last batch was refused, offer it again before adding to it
+        if self.wal.rowcount >= BATCH_SIZE:
+            self.commit()
+
         self.wal.append(record)
         self.records_in_buffer += 1
         self.records += 1
-- 
2.43.0


From 18eb268536ead3b3b10ce68c276b9f459503cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 35/43] fix: store a dataset whose name has a dot in it, or is
 a bucket only, in its own folder

---
 mabel/data/writers/internals/base_inner_writer.py | 5 +++--
 mabel/data/writers/writer.py                      | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..41f8c69 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -20,11 +20,12 @@ STEM = "{stem}"
 class BaseInnerWriter(abc.ABC):
     def __init__(self, **kwargs):
         dataset = kwargs.get("dataset")
-        self.bucket, path, _, _ = paths.get_parts(dataset)
+        # the dataset is a folder, even when its name has a dot in it or is a bucket only
+        self.bucket, path, _, _ = paths.get_parts(dataset and f"{dataset}/{STEM}.jsonl")
 
         if self.bucket == "/":
             self.bucket = ""
-        if path == "/":
+        if path == "./":
             path = ""
 
         self.extension = kwargs.get("extension", ".jsonl")
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..5e9467f 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -94,7 +94,10 @@ class Writer:
             self.dataset_template += "/" + "/".join(partitions)
             self.date_partitions = None
 
-        self.dataset = paths.build_path(self.dataset_template, self.batch_date)
+        # the dataset is a folder, even when its name has a dot in it
+        self.dataset = paths.build_path(
+            self.dataset_template and self.dataset_template + "/", self.batch_date
+        )
 
         # add the values to kwargs
         # kwargs["raw_path"] = True  # we've just added the dates
-- 
2.43.0


From 5f5fcc4d3bde4cc07888536611578a825a1e3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 36/43] fix: deliver empty records when reading without a
 filter

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 94fa1f22021f3eb0c7aa2b2427389a41e40d94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 37/43] fix: apply the WHERE and SELECT clauses of a query to
 the result of its sub-query

---
 mabel/data/readers/internals/sql_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 9611e4f..b6da233 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -273,6 +273,11 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        # the clauses of the outer query apply to the result of the sub-query
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From 2bf67266753c03a12d7c962ee372051b49e1b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 38/43] fix: keep a column that is also selected under another
 name

---
 mabel/data/readers/internals/sql_reader.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index b6da233..d73e5bb 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -325,16 +325,13 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
+    renames = [
+        (get_function_name(t), t["as"]) for t in sql.select_evaluator.tokens if t["as"]
+    ]  # type:ignore
 
     def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
+        # a column can be selected more than once, or take the name of another one
+        return {**row, **{new: row[old] for old, new in renames if old in row}}
 
     if renames:
         reader = DictSet(map(_perform_renames, reader))
-- 
2.43.0


From e8ef2af3917ccb6d651c57c617badf209e33ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:03 +0000
Subject: [PATCH 39/43] fix: refuse operators and parentheses inside the list
 of an expression

---
 mabel/data/internals/expression.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index b27014e..bdd9b3d 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -180,6 +180,16 @@ class Expression(object):
                     self.tokenizer.has_next()
                     and self.tokenizer.next_token_type() != TOKENS.RIGHTPARENTHESES
                 ):
+                    if self.tokenizer.next_token_type() in (
+                        TOKENS.LEFTPARENTHESES,
+                        TOKENS.OPERATOR,
+                        TOKENS.AND,
+                        TOKENS.OR,
+                        TOKENS.NOT,
+                    ):
+                        raise InvalidExpression(
+                            f"Value expected, but got `{self.tokenizer.next()}`"
+                        )
                     if self.tokenizer.next_token_type() != TOKENS.COMMA:
                         collector.append(self.interpret_value(self.tokenizer.next()))
                     else:
-- 
2.43.0


From 04e55feb0ab5a11a5d2818f4457dbfecfef23959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 40/43] fix: show the values of a text table under their own
 columns

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index 171d5af..2578502 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -127,7 +127,7 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join([format_value(row.get(k, "")).center(v + 2) for k, v in columns.items()])
             + "│"
         )
 
-- 
2.43.0


From 0fb481e68e67324c2d699dac4ff1e56ac6bbe562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 41/43] fix: refuse combinations a storage adapter declares
 incompatible

---
 mabel/utils/parameter_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/parameter_validator.py b/mabel/utils/parameter_validator.py
index f642577..81e5a5f 100644
--- a/mabel/utils/parameter_validator.py
+++ b/mabel/utils/parameter_validator.py
@@ -113,7 +113,7 @@ class validate:  # pragma: no cover
                     get_logger().warning(warning)
 
             # toxic
-            for param in [rule for rule in self.rules if rule.get("incompatible_with")]:
+            for param in [rule for rule in my_rules if rule.get("incompatible_with")]:
                 if (
                     param.get("name") in entered_parameters
                     and entered_parameters[param.get("name")]
-- 
2.43.0


From 4a309880b88609710f44b57e441270c34b1d98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 42/43] fix: fetch no items when no positions are given

---
 mabel/data/internals/dictset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index e433ad9..634c130 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -325,6 +325,10 @@ class DictSet(object):
         way possible to do this.
         """
 
+        # no positions is no items, rather than all of them
+        if not locations:
+            return
+
         # if there's no direct access to items, cycle through them
         # yielding the items we want
         if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
-- 
2.43.0


From c0332bd78ca2ce73108a0a46f442fdba70a832c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 43/43] fix: show a column of a text table whose name and
 values are empty

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index 2578502..3beafa1 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -110,7 +110,7 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
         for k, v in row.items():
             v = format_value(v)
             length = max(len(str(v)), len(str(k)))
-            if length > columns.get(k, 0):
+            if length > columns.get(k, -1):
                 columns[k] = length
 
     # draw table
-- 
2.43.0

