From f9033e3c0b4d6f6aa05fc77cf78445e59f01ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 01/43] fix: use 64-bit arithmetic when an object's bytes leave
 the cache

---
 libCacheSim/cache/cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/cache/cache.c b/libCacheSim/cache/cache.c
index 04a5023..5a816ea 100644
--- a/libCacheSim/cache/cache.c
+++ b/libCacheSim/cache/cache.c
@@ -327,7 +327,8 @@ void cache_evict_base(cache_t *cache, cache_obj_t *obj,
 void cache_remove_obj_base(cache_t *cache, cache_obj_t *obj,
                            bool remove_from_hashtable) {
   DEBUG_ASSERT(cache->occupied_byte >= obj->obj_size + cache->obj_md_size);
-  cache->occupied_byte -= (obj->obj_size + cache->obj_md_size);
+  cache->occupied_byte -=
+      (int64_t)obj->obj_size + (int64_t)cache->obj_md_size;
   cache->n_obj -= 1;
   if (remove_from_hashtable) {
     hashtable_delete(cache->hashtable, obj);
-- 
2.43.0


From d7811012a5bfa2a6461ffc43a0358e82b054e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 02/43] fix: MRU eviction of the only cached object
 dereferenced NULL and kept a dangling tail

---
 libCacheSim/cache/eviction/MRU.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/cache/eviction/MRU.c b/libCacheSim/cache/eviction/MRU.c
index 43b2bc1..6fe490a 100644
--- a/libCacheSim/cache/eviction/MRU.c
+++ b/libCacheSim/cache/eviction/MRU.c
@@ -178,7 +178,12 @@ static void MRU_evict(cache_t *cache, const request_t *req) {
   MRU_params_t *params = (MRU_params_t *)cache->eviction_params;
   cache_obj_t *obj_to_evict = MRU_to_evict(cache, req);
   params->q_head = params->q_head->queue.next;
-  params->q_head->queue.prev = NULL;
+  if (params->q_head != NULL) {
+    params->q_head->queue.prev = NULL;
+  } else {
+    /* the only object was evicted */
+    params->q_tail = NULL;
+  }
   cache_evict_base(cache, obj_to_evict, true);
 }
 
-- 
2.43.0


From 04ec8b1b0d1331532d9bbc0b5e6af9ed4056fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 03/43] fix: walk the chain instead of a 64-entry array when
 counting a hash bucket

A bucket with more than 64 objects overflowed the stack array when a deletion
printed the bucket distribution.
---
 libCacheSim/dataStructure/hashtable/chainedHashTableV2.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c b/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
index ae9521d..c6d27b4 100644
--- a/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
+++ b/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
@@ -370,12 +370,12 @@ void check_hashtable_integrity_v2(const hashtable_t *hashtable) {
 }
 
 static int count_n_obj_in_bucket(cache_obj_t *curr_obj) {
-  obj_id_t obj_id_arr[64];
+  cache_obj_t *first_obj = curr_obj;
   int chain_len = 0;
   while (curr_obj != NULL) {
-    obj_id_arr[chain_len] = curr_obj->obj_id;
-    for (int i = 0; i < chain_len; i++) {
-      if (obj_id_arr[i] == curr_obj->obj_id) {
+    for (cache_obj_t *prev_obj = first_obj; prev_obj != curr_obj;
+         prev_obj = prev_obj->hash_next) {
+      if (prev_obj->obj_id == curr_obj->obj_id) {
         ERROR("obj_id %lu is duplicated in hashtable\n",
               (unsigned long)curr_obj->obj_id);
         abort();
-- 
2.43.0


From b5c36602aa3f95c367f28bffd284554d1ab3bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 04/43] fix: decode the unsigned fields of a binary trace as
 unsigned

---
 libCacheSim/traceReader/generalReader/binary.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libCacheSim/traceReader/generalReader/binary.c b/libCacheSim/traceReader/generalReader/binary.c
index 78571eb..0dd3e71 100644
--- a/libCacheSim/traceReader/generalReader/binary.c
+++ b/libCacheSim/traceReader/generalReader/binary.c
@@ -185,17 +185,20 @@ static inline int64_t read_data(char *src, char format) {
 
   switch (format) {
     case 'b':
-    case 'B':
     case 'c':
       return (int64_t)(*(int8_t *)src);
+    case 'B':
+      return (int64_t)(*(uint8_t *)src);
     case 'h':
-    case 'H':
       return (int64_t)(*(int16_t *)src);
+    case 'H':
+      return (int64_t)(*(uint16_t *)src);
     case 'i':
     case 'l':
+      return (int64_t)(*(int32_t *)src);
     case 'I':
     case 'L':
-      return (int64_t)(*(int32_t *)src);
+      return (int64_t)(*(uint32_t *)src);
     case 'q':
     case 'Q':
       return (int64_t)(*(int64_t *)src);
-- 
2.43.0


From 925a6d00502554991c98e76e8667ff6489bcdd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 05/43] fix: do not read a truncated record beyond the end of a
 binary trace

---
 libCacheSim/traceReader/customizedReader/binaryUtils.h | 3 ++-
 libCacheSim/traceReader/generalReader/binary.c         | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/traceReader/customizedReader/binaryUtils.h b/libCacheSim/traceReader/customizedReader/binaryUtils.h
index 780cabc..b733df9 100644
--- a/libCacheSim/traceReader/customizedReader/binaryUtils.h
+++ b/libCacheSim/traceReader/customizedReader/binaryUtils.h
@@ -12,7 +12,8 @@ extern "C" {
 
 /* read decompressed data file */
 static inline char *_read_bytes(reader_t *reader) {
-  if (reader->mmap_offset >= reader->file_size) {
+  /* a truncated record at the end of the trace is not a record */
+  if (reader->mmap_offset + reader->item_size > reader->file_size) {
     return NULL;
   }
 
diff --git a/libCacheSim/traceReader/generalReader/binary.c b/libCacheSim/traceReader/generalReader/binary.c
index 0dd3e71..afeb2f9 100644
--- a/libCacheSim/traceReader/generalReader/binary.c
+++ b/libCacheSim/traceReader/generalReader/binary.c
@@ -215,6 +215,12 @@ static inline int64_t read_data(char *src, char format) {
 int binary_read_one_req(reader_t *reader, request_t *req) {
   binary_params_t *params = (binary_params_t *)reader->reader_params;
 
+  /* a truncated record at the end of the trace is not a record */
+  if (reader->mmap_offset + reader->item_size > reader->file_size) {
+    req->valid = false;
+    return 1;
+  }
+
   char *start = (reader->mapped_file + reader->mmap_offset);
 
   /* read object id */
-- 
2.43.0


From 0737e4e92662cb03234aff6f1705fdf47c8aa0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 06/43] fix: dispatch LCS traces in read_one_req

---
 libCacheSim/traceReader/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index 67620ca..2cf53a5 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -299,6 +299,7 @@ int read_one_req(reader_t *const reader, request_t *const req) {
         status = txt_read_one_req(reader, req);
         break;
       case BIN_TRACE:
+      case LCS_TRACE:
         status = binary_read_one_req(reader, req);
         break;
       case VSCSI_TRACE:
-- 
2.43.0


From 96101ca7eb4256c67134348b6d9b1c0beee98ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 07/43] fix: skipping past the end of a binary trace stays on a
 record boundary

---
 libCacheSim/traceReader/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index 2cf53a5..bb8b821 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -535,7 +535,7 @@ int skip_n_req(reader_t *reader, const int N) {
       reader->mmap_offset = reader->mmap_offset + N * reader->item_size;
     } else {
       count = (reader->file_size - reader->mmap_offset) / reader->item_size;
-      reader->mmap_offset = reader->file_size;
+      reader->mmap_offset = reader->mmap_offset + count * reader->item_size;
       WARN("try to skip %d requests, but only %d requests left\n", N, count);
     }
   } else {
-- 
2.43.0


From 54c7f8cc9b745a23a6d215d613f572ac8b19ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 08/43] fix: go back one request in text traces with long lines
 or without a final newline

---
 libCacheSim/traceReader/reader.c | 48 ++++++++++----------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index bb8b821..7a01633 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -424,43 +424,23 @@ int go_back_one_req(reader_t *const reader) {
         return 1;
       }
 
-      ssize_t max_seek_size = curr_offset - reader->trace_start_offset;
-      ssize_t seek_size = 0;
-      ssize_t total_seek_size = 0;
-      bool found = false;
-      while (!found && total_seek_size < max_seek_size) {
-        seek_size = MIN(PER_SEEK_SIZE, max_seek_size - total_seek_size);
-        total_seek_size += seek_size;
-        fseek(reader->file, -seek_size, SEEK_CUR);
-        ssize_t read_size = fread(reader->line_buf, 1, seek_size - 1, reader->file);
-        reader->line_buf[read_size - 1] = 0;
-        char *last_line_end = strrchr(reader->line_buf, '\n');
-
-        if (last_line_end == NULL) {
-          // three possible cases
-          // 1. reach the trace start
-          // 2. line is too long and has not found \n
-          // 3. error case
-          if (seek_size < PER_SEEK_SIZE) {
-            // case 1 reach the trace start
-            fseek(reader->file, reader->trace_start_offset, SEEK_SET);
-
-            return 0;
-          } else if (total_seek_size < max_seek_size) {
-            // case 2 line is too long and has not found \n
-            fseek(reader->file, -PER_SEEK_SIZE, SEEK_CUR);
-
-          } else {
-            WARN("go_back_one_req cannot find the request above\n");
-            return 1;
-          }
-        } else {
-          found = true;
-          int pos = last_line_end + 2 - reader->line_buf;
-          fseek(reader->file, -(seek_size - pos), SEEK_CUR);
+      // the last byte before the current position belongs to the line we go
+      // back over (it is the newline unless the trace does not end with one),
+      // this line starts after the newline before that byte
+      ssize_t pos = curr_offset - 1;
+      while (pos > reader->trace_start_offset) {
+        ssize_t seek_size = MIN(PER_SEEK_SIZE, pos - reader->trace_start_offset);
+        pos -= seek_size;
+        fseek(reader->file, pos, SEEK_SET);
+        ssize_t i = fread(reader->line_buf, 1, seek_size, reader->file);
+        while (i > 0 && reader->line_buf[i - 1] != '\n') i--;
+        if (i > 0) {
+          fseek(reader->file, pos + i, SEEK_SET);
           return 0;
         }
       }
+      fseek(reader->file, reader->trace_start_offset, SEEK_SET);
+      return 0;
 
     case BINARY_TRACE_FORMAT:
       if (reader->mmap_offset >= reader->trace_start_offset + reader->item_size) {
-- 
2.43.0


From 131edf425fa8218ce6a447dd339237a8e1ae7bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 09/43] fix: reset_reader forgets the pending repetitions of a
 counted request

---
 libCacheSim/traceReader/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index 7a01633..ae5987f 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -532,6 +532,7 @@ void reset_reader(reader_t *const reader) {
   /* rewind the reader back to beginning */
   long curr_offset = 0;
   reader->n_read_req = 0;
+  reader->n_req_left = 0;
   if (reader->trace_type == PLAIN_TXT_TRACE) {
     fseek(reader->file, 0, SEEK_SET);
     curr_offset = ftell(reader->file);
-- 
2.43.0


From 10482aab71b9fee08a126d67a6a561d921377fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 10/43] fix: restart the decompression when a zstd trace is
 reset

---
 libCacheSim/traceReader/generalReader/zstdReader.c | 11 +++++++++++
 libCacheSim/traceReader/generalReader/zstdReader.h |  2 ++
 libCacheSim/traceReader/reader.c                   |  2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/traceReader/generalReader/zstdReader.c b/libCacheSim/traceReader/generalReader/zstdReader.c
index 0001990..b586c03 100644
--- a/libCacheSim/traceReader/generalReader/zstdReader.c
+++ b/libCacheSim/traceReader/generalReader/zstdReader.c
@@ -51,6 +51,17 @@ void free_zstd_reader(zstd_reader *reader) {
   free(reader);
 }
 
+/* restart from the beginning of the compressed file */
+void reset_zstd_reader(zstd_reader *reader) {
+  fseek(reader->ifile, 0, SEEK_SET);
+  ZSTD_initDStream(reader->zds);
+  reader->input.size = 0;
+  reader->input.pos = 0;
+  reader->output.pos = 0;
+  reader->buff_out_read_pos = 0;
+  reader->status = 0;
+}
+
 size_t _read_from_file(zstd_reader *reader) {
   size_t read_sz;
   read_sz = fread(reader->buff_in, 1, reader->buff_in_sz, reader->ifile);
diff --git a/libCacheSim/traceReader/generalReader/zstdReader.h b/libCacheSim/traceReader/generalReader/zstdReader.h
index e9a579e..78f55ee 100644
--- a/libCacheSim/traceReader/generalReader/zstdReader.h
+++ b/libCacheSim/traceReader/generalReader/zstdReader.h
@@ -30,6 +30,8 @@ zstd_reader *create_zstd_reader(const char *trace_path);
 
 void free_zstd_reader(zstd_reader *reader);
 
+void reset_zstd_reader(zstd_reader *reader);
+
 size_t zstd_reader_read_line(zstd_reader *reader, char **line_start,
                              char **line_end);
 
diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index ae5987f..7d245e3 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -546,7 +546,7 @@ void reset_reader(reader_t *const reader) {
 
 #ifdef SUPPORT_ZSTD_TRACE
   if (reader->is_zstd_file) {
-    fseek(reader->zstd_reader_p->ifile, 0, SEEK_SET);
+    reset_zstd_reader(reader->zstd_reader_p);
   }
 #endif
 
-- 
2.43.0


From bebb57a876bf9be39029557f60624c065d4d1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 11/43] fix: a binary trace without requests has zero requests

---
 libCacheSim/traceReader/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index 7d245e3..b06ec8d 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -554,7 +554,9 @@ void reset_reader(reader_t *const reader) {
 }
 
 uint64_t get_num_of_req(reader_t *const reader) {
-  if (reader->n_total_req > 0) return reader->n_total_req;
+  if (reader->n_total_req > 0 || (reader->trace_format == BINARY_TRACE_FORMAT && !reader->is_zstd_file)) {
+    return reader->n_total_req;
+  }
 
   uint64_t n_req = 0;
 
-- 
2.43.0


From 93f5f0ffebc5d54f910af4c017e49287f733b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 12/43] fix: detecting the header of a csv trace overflowed the
 line buffer

---
 libCacheSim/traceReader/generalReader/csv.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libCacheSim/traceReader/generalReader/csv.c b/libCacheSim/traceReader/generalReader/csv.c
index 4ef5463..9b24150 100644
--- a/libCacheSim/traceReader/generalReader/csv.c
+++ b/libCacheSim/traceReader/generalReader/csv.c
@@ -50,17 +50,18 @@ static int read_first_line(const reader_t *reader, char *in_buf,
   size_t n = 0;
   ssize_t read_size = getline(&buf, &n, ifile);
 
-  if (in_buf_size < read_size) {
+  if (in_buf_size <= read_size) {
     WARN(
         "in_buf_size %zu is smaller than the first line size %zu, "
         "the first line will be truncated",
         in_buf_size, read_size);
   }
 
-  read_size = read_size > in_buf_size ? in_buf_size : read_size;
+  /* leave one byte for the null terminator */
+  read_size = read_size >= in_buf_size ? in_buf_size - 1 : read_size;
 
-  /* + 1 to copy the null terminator */
-  memcpy(in_buf, buf, read_size + 1);
+  memcpy(in_buf, buf, read_size);
+  in_buf[read_size] = '\0';
 
   fclose(ifile);
   free(buf);
-- 
2.43.0


From 24c77a2801128ab7bcf8f2b18155f5f85f01064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 13/43] fix: the object id of a standardBinIII trace has 32
 bits

---
 libCacheSim/traceReader/customizedReader/standardBin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCacheSim/traceReader/customizedReader/standardBin.h b/libCacheSim/traceReader/customizedReader/standardBin.h
index bb1ccb8..3d86aac 100644
--- a/libCacheSim/traceReader/customizedReader/standardBin.h
+++ b/libCacheSim/traceReader/customizedReader/standardBin.h
@@ -95,7 +95,7 @@ static inline int standardBinIII_read_one_req(reader_t *reader,
   }
 
   req->clock_time = *(uint32_t *)record;
-  req->obj_id = *(uint64_t *)(record + 4);
+  req->obj_id = *(uint32_t *)(record + 4);
   req->obj_size = *(uint32_t *)(record + 8);
 
   return 0;
-- 
2.43.0


From 676bcfc550c271f52cda808d0f13fd11db7369ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 14/43] fix: a standardBinIQQ trace keeps its type and its
 64-bit sizes

---
 libCacheSim/traceReader/customizedReader/standardBin.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/traceReader/customizedReader/standardBin.h b/libCacheSim/traceReader/customizedReader/standardBin.h
index 3d86aac..27454fc 100644
--- a/libCacheSim/traceReader/customizedReader/standardBin.h
+++ b/libCacheSim/traceReader/customizedReader/standardBin.h
@@ -27,7 +27,7 @@ extern "C" {
 #include "binaryUtils.h"
 
 static inline int standardBinIQQ_setup(reader_t *reader) {
-  reader->trace_type = STANDARD_IQI_TRACE;
+  reader->trace_type = STANDARD_IQQ_TRACE;
   reader->trace_format = BINARY_TRACE_FORMAT;
   reader->item_size = 20;
   reader->n_total_req = (uint64_t)reader->file_size / (reader->item_size);
@@ -46,7 +46,7 @@ static inline int standardBinIQQ_read_one_req(reader_t *reader,
 
   req->clock_time = *(uint32_t *)record;
   req->obj_id = *(uint64_t *)(record + 4);
-  req->obj_size = *(uint32_t *)(record + 12);
+  req->obj_size = *(uint64_t *)(record + 12);
 
   return 0;
 }
-- 
2.43.0


From f687d2f4583c86f4d092850590d1afc3f1b10ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 15/43] fix: ignore zero-size requests of an oracleSysTwrNS
 trace instead of aborting

---
 .../traceReader/customizedReader/oracle/oracleTwrNSBin.h     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h b/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
index 9dee7df..add08bf 100644
--- a/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
+++ b/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
@@ -99,11 +99,8 @@ static int oracleSysTwrNSBin_read_one_req(reader_t *reader, request_t *req) {
   }
 
   if (req->val_size == 0 && reader->ignore_size_zero_req && (req->op == OP_GET || req->op == OP_GETS) &&
-      reader->read_direction == READ_FORWARD) {
-    ERROR("find size 0 request\n");
-    print_request(req, WARN_LEVEL);
+      reader->read_direction == READ_FORWARD)
     return oracleSysTwrNSBin_read_one_req(reader, req);
-  }
 
   return 0;
 }
-- 
2.43.0


From 82b2cbd97c68e6898faed017ad77cd84aebed5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 16/43] fix: decide by the record whether an oracleSimTwrNS
 request has size zero

---
 .../traceReader/customizedReader/oracle/oracleTwrNSBin.h       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h b/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
index add08bf..e2cf025 100644
--- a/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
+++ b/libCacheSim/traceReader/customizedReader/oracle/oracleTwrNSBin.h
@@ -60,8 +60,7 @@ static int oracleSimTwrNSBin_read_one_req(reader_t *reader, request_t *req) {
     req->next_access_vtime = MAX_REUSE_DISTANCE;
   }
 
-  if (req->val_size == 0 && reader->ignore_size_zero_req && (req->op == OP_GET || req->op == OP_GETS) &&
-      reader->read_direction == READ_FORWARD)
+  if (req->obj_size == 0 && reader->ignore_size_zero_req && reader->read_direction == READ_FORWARD)
     return oracleSimTwrNSBin_read_one_req(reader, req);
 
   return 0;
-- 
2.43.0


From 3112ea2bf347653c39b6abdd99791293abc10bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 17/43] fix: LFUCpp_remove removed (and freed) the object twice

---
 libCacheSim/cache/eviction/cpp/LFU.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libCacheSim/cache/eviction/cpp/LFU.cpp b/libCacheSim/cache/eviction/cpp/LFU.cpp
index e567f4d..2d936c6 100644
--- a/libCacheSim/cache/eviction/cpp/LFU.cpp
+++ b/libCacheSim/cache/eviction/cpp/LFU.cpp
@@ -210,9 +210,7 @@ static bool LFUCpp_remove(cache_t *cache, const obj_id_t obj_id) {
   if (obj == nullptr) {
     return false;
   }
-  bool ret = lfu->remove(cache, obj_id);
-  cache_remove_obj_base(cache, obj, true);
-  return true;
+  return lfu->remove(cache, obj_id);
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 5bbd86fb2556373194661817c0c41b0ba7c0e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 18/43] fix: SLRU_remove left the removed object in its
 segment's counts

---
 libCacheSim/cache/eviction/SLRU.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCacheSim/cache/eviction/SLRU.c b/libCacheSim/cache/eviction/SLRU.c
index cee5791..86d2f13 100644
--- a/libCacheSim/cache/eviction/SLRU.c
+++ b/libCacheSim/cache/eviction/SLRU.c
@@ -391,6 +391,8 @@ static bool SLRU_remove(cache_t *cache, const obj_id_t obj_id) {
 
   remove_obj_from_list(&(params->lru_heads[obj->SLRU.lru_id]),
                        &(params->lru_tails[obj->SLRU.lru_id]), obj);
+  params->lru_n_bytes[obj->SLRU.lru_id] -= obj->obj_size + cache->obj_md_size;
+  params->lru_n_objs[obj->SLRU.lru_id] -= 1;
   cache_remove_obj_base(cache, obj, true);
 
   return true;
-- 
2.43.0


From 2d12d4039993ef79592536cc3945ad4615e9886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 19/43] fix: TwoQ_remove reported a ghost entry as a removed
 object

---
 libCacheSim/cache/eviction/TwoQ.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/cache/eviction/TwoQ.c b/libCacheSim/cache/eviction/TwoQ.c
index e2041af..7e988ec 100644
--- a/libCacheSim/cache/eviction/TwoQ.c
+++ b/libCacheSim/cache/eviction/TwoQ.c
@@ -293,8 +293,9 @@ static bool TwoQ_remove(cache_t *cache, const obj_id_t obj_id) {
   TwoQ_params_t *params = (TwoQ_params_t *)cache->eviction_params;
   bool removed = false;
   removed = removed || params->Ain->remove(params->Ain, obj_id);
-  removed = removed || params->Aout->remove(params->Aout, obj_id);
   removed = removed || params->Am->remove(params->Am, obj_id);
+  // an entry in the ghost queue is not an object in the cache
+  params->Aout->remove(params->Aout, obj_id);
 
   return removed;
 }
-- 
2.43.0


From 73c9efe0572ec9f508a7bc6ff39e3f817767bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 20/43] fix: S3FIFO_remove reported a ghost entry as a removed
 object

---
 libCacheSim/cache/eviction/S3FIFO.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/cache/eviction/S3FIFO.c b/libCacheSim/cache/eviction/S3FIFO.c
index a6ee9fe..c81aaaf 100644
--- a/libCacheSim/cache/eviction/S3FIFO.c
+++ b/libCacheSim/cache/eviction/S3FIFO.c
@@ -456,9 +456,11 @@ static bool S3FIFO_remove(cache_t *cache, const obj_id_t obj_id) {
   S3FIFO_params_t *params = (S3FIFO_params_t *)cache->eviction_params;
   bool removed = false;
   removed = removed || params->fifo->remove(params->fifo, obj_id);
-  removed = removed || (params->fifo_ghost &&
-                        params->fifo_ghost->remove(params->fifo_ghost, obj_id));
   removed = removed || params->main_cache->remove(params->main_cache, obj_id);
+  // an entry in the ghost queue is not an object in the cache
+  if (params->fifo_ghost) {
+    params->fifo_ghost->remove(params->fifo_ghost, obj_id);
+  }
 
   return removed;
 }
-- 
2.43.0


From ee371f933eae74611ff56dccb3d15fa749601b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 21/43] fix: QDLP_remove reported a ghost entry as a removed
 object

---
 libCacheSim/cache/eviction/QDLP.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/cache/eviction/QDLP.c b/libCacheSim/cache/eviction/QDLP.c
index af2758e..7e14d8e 100644
--- a/libCacheSim/cache/eviction/QDLP.c
+++ b/libCacheSim/cache/eviction/QDLP.c
@@ -397,9 +397,11 @@ static bool QDLP_remove(cache_t *cache, const obj_id_t obj_id) {
   QDLP_params_t *params = (QDLP_params_t *)cache->eviction_params;
   bool removed = false;
   removed = removed || params->fifo->remove(params->fifo, obj_id);
-  removed = removed || (params->fifo_ghost &&
-                        params->fifo_ghost->remove(params->fifo_ghost, obj_id));
   removed = removed || params->main_cache->remove(params->main_cache, obj_id);
+  // an entry in the ghost queue is not an object in the cache
+  if (params->fifo_ghost) {
+    params->fifo_ghost->remove(params->fifo_ghost, obj_id);
+  }
 
   return removed;
 }
-- 
2.43.0


From 5381ec889f09dc6f0c2e1c9f6dbce82e4865ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 22/43] fix: ARC_find without update crashed on an object that
 is not in the cache

---
 libCacheSim/cache/eviction/ARC.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libCacheSim/cache/eviction/ARC.c b/libCacheSim/cache/eviction/ARC.c
index 4ad1474..cc6c3c3 100644
--- a/libCacheSim/cache/eviction/ARC.c
+++ b/libCacheSim/cache/eviction/ARC.c
@@ -222,14 +222,14 @@ static cache_obj_t *ARC_find(cache_t *cache, const request_t *req,
 
   cache_obj_t *obj = cache_find_base(cache, req, update_cache);
 
-  if (!update_cache) {
-    return obj->ARC.ghost ? NULL : obj;
-  }
-
   if (obj == NULL) {
     return NULL;
   }
 
+  if (!update_cache) {
+    return obj->ARC.ghost ? NULL : obj;
+  }
+
   params->curr_obj_in_L1_ghost = false;
   params->curr_obj_in_L2_ghost = false;
 
-- 
2.43.0


From 443d1e1cfbad5c1ff907271c6c39018916f362d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 23/43] fix: ARC_remove left a removed ghost entry in the hash
 table

---
 libCacheSim/cache/eviction/ARC.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libCacheSim/cache/eviction/ARC.c b/libCacheSim/cache/eviction/ARC.c
index cc6c3c3..5a93ea0 100644
--- a/libCacheSim/cache/eviction/ARC.c
+++ b/libCacheSim/cache/eviction/ARC.c
@@ -400,6 +400,9 @@ static bool ARC_remove(cache_t *cache, const obj_id_t obj_id) {
       params->L2_ghost_size -= obj->obj_size + cache->obj_md_size;
       remove_obj_from_list(&params->L2_ghost_head, &params->L2_ghost_tail, obj);
     }
+    // a ghost entry is not an object in the cache
+    hashtable_delete(cache->hashtable, obj);
+    return false;
   } else {
     if (obj->ARC.lru_id == 1) {
       params->L1_data_size -= obj->obj_size + cache->obj_md_size;
-- 
2.43.0


From 9f150ca919b4d2789e063f6ed19bfb4b88a5e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 24/43] fix: LeCaR_remove treated a ghost entry as an object in
 the cache

---
 libCacheSim/cache/eviction/LeCaR.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libCacheSim/cache/eviction/LeCaR.c b/libCacheSim/cache/eviction/LeCaR.c
index 915dfdc..fa88c18 100644
--- a/libCacheSim/cache/eviction/LeCaR.c
+++ b/libCacheSim/cache/eviction/LeCaR.c
@@ -565,6 +565,21 @@ bool LeCaR_remove(cache_t *cache, obj_id_t obj_id) {
     return false;
   }
 
+  if (obj->LeCaR.is_ghost) {
+    // a ghost entry is not an object in the cache
+    if (obj->LeCaR.evict_expert == 1) {
+      remove_obj_from_list(&params->ghost_lru_head, &params->ghost_lru_tail,
+                           obj);
+      params->lru_g_occupied_byte -= (obj->obj_size + cache->obj_md_size);
+    } else if (obj->LeCaR.evict_expert == 2) {
+      remove_obj_from_list(&params->ghost_lfu_head, &params->ghost_lfu_tail,
+                           obj);
+      params->lfu_g_occupied_byte -= (obj->obj_size + cache->obj_md_size);
+    }
+    hashtable_delete(cache->hashtable, obj);
+    return false;
+  }
+
   // remove from LRU list
   remove_obj_from_list(&params->q_head, &params->q_tail, obj);
 
-- 
2.43.0


From e0747d02e50549a57ff721027699b98aad3021ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 25/43] fix: LIRS_remove used the removed object and counted
 non-resident entries as objects

---
 libCacheSim/cache/eviction/LIRS.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/libCacheSim/cache/eviction/LIRS.c b/libCacheSim/cache/eviction/LIRS.c
index 751042f..40c1e21 100644
--- a/libCacheSim/cache/eviction/LIRS.c
+++ b/libCacheSim/cache/eviction/LIRS.c
@@ -407,32 +407,39 @@ static bool LIRS_remove(cache_t *cache, obj_id_t obj_id) {
 
   // object in S stack (or in Q stack)
   if (obj_s != NULL) {
+    // the object is freed when it is removed from the stack
+    int64_t obj_size = obj_s->obj_size;
     if (obj_s->LIRS.is_LIR) {
       params->LRU_s->remove(params->LRU_s, obj_id);
-      params->lirs_count -= obj_s->obj_size;
-      cache->occupied_byte -= obj_s->obj_size;
+      params->lirs_count -= obj_size;
+      cache->occupied_byte -= obj_size + cache->obj_md_size;
       cache->n_obj--;
       LIRS_prune(cache);
     } else {
-      if (obj_s->LIRS.in_cache) {
-        params->LRU_s->remove(params->LRU_s, obj_id);
-        params->hirs_count -= obj_s->obj_size;
-        cache->occupied_byte -= obj_s->obj_size;
+      bool in_cache = obj_s->LIRS.in_cache;
+      params->LRU_s->remove(params->LRU_s, obj_id);
+      if (in_cache) {
+        params->hirs_count -= obj_size;
+        cache->occupied_byte -= obj_size + cache->obj_md_size;
         cache->n_obj--;
       } else {
-        params->LRU_s->remove(params->LRU_s, obj_id);
-        params->nonresident -= obj_s->obj_size;
+        params->LRU_nh->remove(params->LRU_nh, obj_id);
+        params->nonresident -= obj_size;
       }
       if (obj_q != NULL) {
         params->LRU_q->remove(params->LRU_q, obj_id);
       }
+      // a non-resident entry is not an object in the cache
+      return in_cache;
     }
   } else if (obj_q != NULL) {
     // object only in Q stack
+    int64_t obj_size = obj_q->obj_size;
+    bool in_cache = obj_q->LIRS.in_cache;
     params->LRU_q->remove(params->LRU_q, obj_id);
-    if (obj_q->LIRS.in_cache) {
-      params->hirs_count -= obj_q->obj_size;
-      cache->occupied_byte -= obj_q->obj_size;
+    if (in_cache) {
+      params->hirs_count -= obj_size;
+      cache->occupied_byte -= obj_size + cache->obj_md_size;
       cache->n_obj--;
     } else {
       assert(false);
-- 
2.43.0


From da52107d4bb14379ccc7998d5e12080b4e48794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 26/43] fix: WTinyLFU_init read the metadata size from a cache
 it had not created

---
 libCacheSim/cache/eviction/WTinyLFU.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libCacheSim/cache/eviction/WTinyLFU.c b/libCacheSim/cache/eviction/WTinyLFU.c
index 42bf925..efdbd44 100644
--- a/libCacheSim/cache/eviction/WTinyLFU.c
+++ b/libCacheSim/cache/eviction/WTinyLFU.c
@@ -97,13 +97,6 @@ cache_t *WTinyLFU_init(const common_cache_params_t ccache_params,
       (WTinyLFU_params_t *)malloc(sizeof(WTinyLFU_params_t));
   WTinyLFU_params_t *params = (WTinyLFU_params_t *)(cache->eviction_params);
 
-  if (ccache_params.consider_obj_metadata) {
-    cache->obj_md_size = params->main_cache->obj_md_size;
-    // TODO: not sure whether it works
-  } else {
-    cache->obj_md_size = 0;
-  }
-
   WTinyLFU_parse_params(cache, DEFAULT_PARAMS);
   if (cache_specific_params != NULL) {
     WTinyLFU_parse_params(cache, cache_specific_params);
@@ -144,6 +137,13 @@ cache_t *WTinyLFU_init(const common_cache_params_t ccache_params,
     ERROR("WTinyLFU does not support %s \n", params->main_cache_type);
   }
 
+  if (ccache_params.consider_obj_metadata) {
+    cache->obj_md_size = params->main_cache->obj_md_size;
+    // TODO: not sure whether it works
+  } else {
+    cache->obj_md_size = 0;
+  }
+
   snprintf(cache->cache_name, CACHE_NAME_ARRAY_LEN, "WTinyLFU-w%.2lf-%s",
            params->window_size, params->main_cache_type);
 
-- 
2.43.0


From 00ac9602fde3f0712b04aa9f352aabfa0b679565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 27/43] fix: LRU_Prob_init left the queue uninitialised

---
 libCacheSim/cache/eviction/LRUProb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCacheSim/cache/eviction/LRUProb.c b/libCacheSim/cache/eviction/LRUProb.c
index 30e4b2e..0664cbb 100644
--- a/libCacheSim/cache/eviction/LRUProb.c
+++ b/libCacheSim/cache/eviction/LRUProb.c
@@ -75,6 +75,8 @@ cache_t *LRU_Prob_init(const common_cache_params_t ccache_params,
   cache->eviction_params =
       (LRU_Prob_params_t *)malloc(sizeof(LRU_Prob_params_t));
   LRU_Prob_params_t *params = (LRU_Prob_params_t *)(cache->eviction_params);
+  params->q_head = NULL;
+  params->q_tail = NULL;
   params->prob = 0.5;
 
   if (cache_specific_params != NULL) {
-- 
2.43.0


From 58cea460b573bc8b78cd634c6b886a44b15612e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 28/43] fix: QDLP_can_insert accepted an object that
 QDLP_insert does not insert

---
 libCacheSim/cache/eviction/QDLP.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCacheSim/cache/eviction/QDLP.c b/libCacheSim/cache/eviction/QDLP.c
index 7e14d8e..8969774 100644
--- a/libCacheSim/cache/eviction/QDLP.c
+++ b/libCacheSim/cache/eviction/QDLP.c
@@ -421,7 +421,7 @@ static inline int64_t QDLP_get_n_obj(const cache_t *cache) {
 static inline bool QDLP_can_insert(cache_t *cache, const request_t *req) {
   QDLP_params_t *params = (QDLP_params_t *)cache->eviction_params;
 
-  return req->obj_size <= params->fifo->cache_size;
+  return req->obj_size < params->fifo->cache_size;
 }
 
 // ***********************************************************************
-- 
2.43.0


From c2367c5520b85afc0cf9def8f22d45fe7c564210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 29/43] fix: S3FIFO_can_insert accepted an object that
 S3FIFO_insert does not insert

---
 libCacheSim/cache/eviction/S3FIFO.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCacheSim/cache/eviction/S3FIFO.c b/libCacheSim/cache/eviction/S3FIFO.c
index c81aaaf..7ad23ed 100644
--- a/libCacheSim/cache/eviction/S3FIFO.c
+++ b/libCacheSim/cache/eviction/S3FIFO.c
@@ -480,7 +480,7 @@ static inline int64_t S3FIFO_get_n_obj(const cache_t *cache) {
 static inline bool S3FIFO_can_insert(cache_t *cache, const request_t *req) {
   S3FIFO_params_t *params = (S3FIFO_params_t *)cache->eviction_params;
 
-  return req->obj_size <= params->fifo->cache_size;
+  return req->obj_size < params->fifo->cache_size;
 }
 
 // ***********************************************************************
-- 
2.43.0


From 6b99945f134f6cfd68e2c5e072e0920e11b97f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 30/43] fix: SLRU_cool moved an object between segments without
 its metadata size

---
 libCacheSim/cache/eviction/SLRU.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/cache/eviction/SLRU.c b/libCacheSim/cache/eviction/SLRU.c
index 86d2f13..0d132d1 100644
--- a/libCacheSim/cache/eviction/SLRU.c
+++ b/libCacheSim/cache/eviction/SLRU.c
@@ -499,8 +499,8 @@ static void SLRU_cool(cache_t *cache, const request_t *req, const int id) {
   prepend_obj_to_head(&params->lru_heads[id - 1], &params->lru_tails[id - 1],
                       obj);
   obj->SLRU.lru_id = id - 1;
-  params->lru_n_bytes[id] -= obj->obj_size;
-  params->lru_n_bytes[id - 1] += obj->obj_size;
+  params->lru_n_bytes[id] -= obj->obj_size + cache->obj_md_size;
+  params->lru_n_bytes[id - 1] += obj->obj_size + cache->obj_md_size;
   params->lru_n_objs[id]--;
   params->lru_n_objs[id - 1]++;
 
-- 
2.43.0


From d9960a09ba560b3cb667f8c81515558bdbec8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 31/43] fix: LIRS_find without update moved the object between
 the stacks

---
 libCacheSim/cache/eviction/LIRS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libCacheSim/cache/eviction/LIRS.c b/libCacheSim/cache/eviction/LIRS.c
index 40c1e21..07a99ae 100644
--- a/libCacheSim/cache/eviction/LIRS.c
+++ b/libCacheSim/cache/eviction/LIRS.c
@@ -210,6 +210,12 @@ static cache_obj_t *LIRS_find(cache_t *cache, const request_t *req,
   obj_s = params->LRU_s->find(params->LRU_s, req, update_cache);
   obj_q = params->LRU_q->find(params->LRU_q, req, update_cache);
 
+  if (!update_cache) {
+    // a lookup that does not update must not move the object between stacks
+    cache_obj_t *obj = obj_s != NULL ? obj_s : obj_q;
+    return obj != NULL && obj->LIRS.in_cache ? obj : NULL;
+  }
+
   // cache_obj_t *res = NULL;
   if (obj_s != NULL) {
     if (obj_s->LIRS.is_LIR) {
-- 
2.43.0


From 3032fdaeeed1149620924d5cfca2a7561ae81a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 32/43] fix: SFIFO_remove left the removed object in its
 segment's counts

---
 libCacheSim/cache/eviction/fifo/SFIFO.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCacheSim/cache/eviction/fifo/SFIFO.c b/libCacheSim/cache/eviction/fifo/SFIFO.c
index 6ec113d..b40ec7d 100644
--- a/libCacheSim/cache/eviction/fifo/SFIFO.c
+++ b/libCacheSim/cache/eviction/fifo/SFIFO.c
@@ -349,6 +349,8 @@ static bool SFIFO_remove(cache_t *cache, const obj_id_t obj_id) {
 
   cache->occupied_byte -= (obj->obj_size + cache->obj_md_size);
   cache->n_obj -= 1;
+  params->fifo_n_bytes[obj->SFIFO.fifo_id] -= obj->obj_size + cache->obj_md_size;
+  params->fifo_n_objs[obj->SFIFO.fifo_id]--;
   remove_obj_from_list(&(params->fifo_heads[obj->SFIFO.fifo_id]),
                        &(params->fifo_tails[obj->SFIFO.fifo_id]), obj);
   hashtable_delete(cache->hashtable, obj);
-- 
2.43.0


From f802111c0b83eb82327a282d116077ddccb02d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 33/43] fix: SFIFO_cool moved an object between segments
 without its metadata size

---
 libCacheSim/cache/eviction/fifo/SFIFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/cache/eviction/fifo/SFIFO.c b/libCacheSim/cache/eviction/fifo/SFIFO.c
index b40ec7d..fea8910 100644
--- a/libCacheSim/cache/eviction/fifo/SFIFO.c
+++ b/libCacheSim/cache/eviction/fifo/SFIFO.c
@@ -437,9 +437,9 @@ static void SFIFO_cool(cache_t *cache, const request_t *req, const int id) {
                       obj);
   obj->SFIFO.fifo_id = id - 1;
   obj->SFIFO.freq = 0;
-  params->fifo_n_bytes[id] -= obj->obj_size;
+  params->fifo_n_bytes[id] -= obj->obj_size + cache->obj_md_size;
   params->fifo_n_objs[id]--;
-  params->fifo_n_bytes[id - 1] += obj->obj_size;
+  params->fifo_n_bytes[id - 1] += obj->obj_size + cache->obj_md_size;
   params->fifo_n_objs[id - 1]++;
 
   // If lower fifos are full
-- 
2.43.0


From fda9f3faff70c8fe26921f52960dbf9f18eb315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 34/43] fix: S3FIFOd_evict read the frequency of an object it
 had freed

---
 libCacheSim/cache/eviction/S3FIFOd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libCacheSim/cache/eviction/S3FIFOd.c b/libCacheSim/cache/eviction/S3FIFOd.c
index 5b73b81..0698472 100644
--- a/libCacheSim/cache/eviction/S3FIFOd.c
+++ b/libCacheSim/cache/eviction/S3FIFOd.c
@@ -453,11 +453,12 @@ static void S3FIFOd_evict(cache_t *cache, const request_t *req) {
   }
 
 #else
-  // evict from fifo
+  // evict from fifo, obj is freed when it is removed
+  int64_t freq = obj->misc.freq;
   bool removed = fifo->remove(fifo, params->req_local->obj_id);
   assert(removed);
 
-  if (obj->misc.freq >= params->move_to_main_threshold) {
+  if (freq >= params->move_to_main_threshold) {
     // promote to main cache
     main->insert(main, params->req_local);
 
-- 
2.43.0


From cec1c6bb6f8c25e34aa19d0bc5f69002006acbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 35/43] fix: FIFO_Reinsertion_remove left next_to_merge
 pointing to the removed object

---
 libCacheSim/cache/eviction/FIFO_Reinsertion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libCacheSim/cache/eviction/FIFO_Reinsertion.c b/libCacheSim/cache/eviction/FIFO_Reinsertion.c
index b2fdd0d..a9035f1 100644
--- a/libCacheSim/cache/eviction/FIFO_Reinsertion.c
+++ b/libCacheSim/cache/eviction/FIFO_Reinsertion.c
@@ -342,6 +342,11 @@ static bool FIFO_Reinsertion_remove(cache_t *cache, const obj_id_t obj_id) {
     return false;
   }
 
+  FIFO_Reinsertion_params_t *params =
+      (FIFO_Reinsertion_params_t *)cache->eviction_params;
+  if (params->next_to_merge == obj) {
+    params->next_to_merge = obj->queue.prev;
+  }
   FIFO_Reinsertion_remove_obj(cache, obj);
 
   return true;
-- 
2.43.0


From 396a021359ee67bea1060b9d99d5c711d93a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 36/43] fix: FIFO_Merge_remove left references to the removed
 object

---
 libCacheSim/cache/eviction/FIFO_Merge.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libCacheSim/cache/eviction/FIFO_Merge.c b/libCacheSim/cache/eviction/FIFO_Merge.c
index 83aba91..1bc81f8 100644
--- a/libCacheSim/cache/eviction/FIFO_Merge.c
+++ b/libCacheSim/cache/eviction/FIFO_Merge.c
@@ -324,6 +324,12 @@ bool FIFO_Merge_remove(cache_t *cache, const obj_id_t obj_id) {
     return false;
   }
 
+  FIFO_Merge_params_t *params = (FIFO_Merge_params_t *)cache->eviction_params;
+  if (params->next_to_exam == obj) {
+    params->next_to_exam = obj->queue.prev;
+  }
+  // the object may be among those identified to evict, examine again
+  params->pos_in_metric_list = INT32_MAX;
   FIFO_Merge_remove_obj(cache, obj);
 
   return true;
-- 
2.43.0


From 7c1d893d0cd7ebf3d1542e4f217e5f93fa7af3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 37/43] fix: S3FIFOd_remove reported a ghost entry as a removed
 object

---
 libCacheSim/cache/eviction/S3FIFOd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCacheSim/cache/eviction/S3FIFOd.c b/libCacheSim/cache/eviction/S3FIFOd.c
index 0698472..82a2b56 100644
--- a/libCacheSim/cache/eviction/S3FIFOd.c
+++ b/libCacheSim/cache/eviction/S3FIFOd.c
@@ -495,8 +495,9 @@ static bool S3FIFOd_remove(cache_t *cache, const obj_id_t obj_id) {
   S3FIFOd_params_t *params = (S3FIFOd_params_t *)cache->eviction_params;
   bool removed = false;
   removed = removed || params->fifo->remove(params->fifo, obj_id);
-  removed = removed || params->fifo_ghost->remove(params->fifo_ghost, obj_id);
   removed = removed || params->main_cache->remove(params->main_cache, obj_id);
+  // an entry in the ghost queue is not an object in the cache
+  params->fifo_ghost->remove(params->fifo_ghost, obj_id);
 
   return removed;
 }
-- 
2.43.0


From 4b5a0389f81fb758ee5e2e24997ec35eaf753f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 38/43] fix: clone_cache dropped the prefetcher

---
 libCacheSim/cache/cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libCacheSim/cache/cache.c b/libCacheSim/cache/cache.c
index 5a816ea..a0f9286 100644
--- a/libCacheSim/cache/cache.c
+++ b/libCacheSim/cache/cache.c
@@ -95,6 +95,10 @@ cache_t *clone_cache(const cache_t *old_cache) {
   if (old_cache->admissioner != NULL) {
     cache->admissioner = old_cache->admissioner->clone(old_cache->admissioner);
   }
+  if (old_cache->prefetcher != NULL) {
+    cache->prefetcher = old_cache->prefetcher->clone(old_cache->prefetcher,
+                                                     old_cache->cache_size);
+  }
   cache->future_stack_dist = old_cache->future_stack_dist;
   cache->future_stack_dist_array_size = old_cache->future_stack_dist_array_size;
 
-- 
2.43.0


From f4d23f10fa1dea860d69dba0ceefe0efac8e4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 39/43] fix: a reader opened without parameters used an
 uninitialised request cap and its clone kept size-zero requests

---
 libCacheSim/traceReader/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index b06ec8d..08bdf82 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -92,6 +92,10 @@ reader_t *setup_reader(const char *const trace_path, const trace_type_e trace_ty
     if (init_params->sampler != NULL) reader->sampler = init_params->sampler->clone(init_params->sampler);
   } else {
     memset(&reader->init_params, 0, sizeof(reader_init_param_t));
+    reader->cap_at_n_req = -1;
+    // a clone is created from the parameters of this reader
+    reader->init_params.ignore_size_zero_req = reader->ignore_size_zero_req;
+    reader->init_params.cap_at_n_req = reader->cap_at_n_req;
   }
 
   assert(trace_path != NULL);
-- 
2.43.0


From 29b4afa8a4f9d5c2be742a2a6c1acce06d2f6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 40/43] fix: closing a reader unmapped the trace under its
 clones

---
 libCacheSim/traceReader/reader.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libCacheSim/traceReader/reader.c b/libCacheSim/traceReader/reader.c
index 08bdf82..2fbfaca 100644
--- a/libCacheSim/traceReader/reader.c
+++ b/libCacheSim/traceReader/reader.c
@@ -583,10 +583,6 @@ reader_t *clone_reader(const reader_t *const reader_in) {
   reader_t *reader = setup_reader(reader_in->trace_path, reader_in->trace_type, &reader_in->init_params);
   reader->n_total_req = reader_in->n_total_req;
 
-  if (reader->trace_format != TXT_TRACE_FORMAT) {
-    munmap(reader->mapped_file, reader->file_size);
-    reader->mapped_file = reader_in->mapped_file;
-  }
   reader->cloned = true;
   return reader;
 }
@@ -624,10 +620,13 @@ int close_reader(reader_t *const reader) {
   }
 #endif
 
+  // a clone has a mapping of its own, so that closing one reader does not
+  // invalidate the other
+  if (reader->mapped_file != NULL) {
+    munmap(reader->mapped_file, reader->file_size);
+  }
+
   if (!reader->cloned) {
-    if (reader->mapped_file != NULL) {
-      munmap(reader->mapped_file, reader->file_size);
-    }
     if (reader->init_params.sampler != NULL) {
       reader->init_params.sampler->free(reader->init_params.sampler);
     }
-- 
2.43.0


From 070ea2c676a2416c9317464aeec325da15087c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 41/43] fix: simulate_with_multi_caches reads the names of
 caches its threads may have freed

---
 libCacheSim/profiler/simulator.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libCacheSim/profiler/simulator.c b/libCacheSim/profiler/simulator.c
index a53f7cd..57acee7 100644
--- a/libCacheSim/profiler/simulator.c
+++ b/libCacheSim/profiler/simulator.c
@@ -279,14 +279,12 @@ cache_stat_t *simulate_with_multi_caches(reader_t *reader, cache_t *caches[],
       (GFunc)_simulate, (gpointer)params, num_of_threads, TRUE, NULL);
   ASSERT_NOT_NULL(gthread_pool, "cannot create thread pool in simulator\n");
 
-  // start computation
-  for (i = 1; i < num_of_caches + 1; i++) {
-    result[i - 1].cache_size = caches[i - 1]->cache_size;
-
-    ASSERT_TRUE(g_thread_pool_push(gthread_pool, GSIZE_TO_POINTER(i), NULL),
-                "cannot push data into thread_pool in get_miss_ratio\n");
+  for (i = 0; i < num_of_caches; i++) {
+    result[i].cache_size = caches[i]->cache_size;
   }
 
+  // a cache must not be used once its simulation is started because the thread
+  // frees it when free_cache_when_finish is set
   char start_cache_size[64], end_cache_size[64];
   convert_size_to_str(result[0].cache_size, start_cache_size);
   convert_size_to_str(result[num_of_caches - 1].cache_size, end_cache_size);
@@ -298,6 +296,12 @@ cache_stat_t *simulate_with_multi_caches(reader_t *reader, cache_t *caches[],
       start_cache_size, caches[num_of_caches - 1]->cache_name, end_cache_size,
       num_of_caches, num_of_threads);
 
+  // start computation
+  for (i = 1; i < num_of_caches + 1; i++) {
+    ASSERT_TRUE(g_thread_pool_push(gthread_pool, GSIZE_TO_POINTER(i), NULL),
+                "cannot push data into thread_pool in get_miss_ratio\n");
+  }
+
   // wait for all simulations to finish
   while (progress < (uint64_t)num_of_caches - 1) {
     print_progress((double)progress / (double)(num_of_caches - 1) * 100);
-- 
2.43.0


From 3266243a55372042fdc03a7c95bfd02f790ce67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 42/43] fix: an external object inserted into an empty bucket
 kept its stale hash link

---
 libCacheSim/dataStructure/hashtable/chainedHashTableV2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c b/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
index c6d27b4..80e0632 100644
--- a/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
+++ b/libCacheSim/dataStructure/hashtable/chainedHashTableV2.c
@@ -61,6 +61,8 @@ static inline void add_to_bucket(hashtable_t *hashtable,
   uint64_t hv = get_hash_value_int_64(&cache_obj->obj_id) &
                 hashmask(hashtable->hashpower);
   if (hashtable->ptr_table[hv] == NULL) {
+    // an external object may have been in a table before
+    cache_obj->hash_next = NULL;
     hashtable->ptr_table[hv] = cache_obj;
     return;
   }
-- 
2.43.0


From 86566f6bfb78e3b15d34c7c4136107d436f0c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 43/43] fix: TwoQ, QDLP and S3FIFOd exceed the cache size by
 metadata only their inner caches count

---
 libCacheSim/cache/eviction/QDLP.c    | 3 +++
 libCacheSim/cache/eviction/S3FIFOd.c | 3 +++
 libCacheSim/cache/eviction/TwoQ.c    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/libCacheSim/cache/eviction/QDLP.c b/libCacheSim/cache/eviction/QDLP.c
index 8969774..0e0c4f3 100644
--- a/libCacheSim/cache/eviction/QDLP.c
+++ b/libCacheSim/cache/eviction/QDLP.c
@@ -108,6 +108,9 @@ cache_t *QDLP_init(const common_cache_params_t ccache_params,
       (int64_t)(ccache_params.cache_size * params->ghost_size_ratio);
 
   common_cache_params_t ccache_params_local = ccache_params;
+  // the size of an object is its request's size (obj_md_size is 0), so the
+  // queues must not add metadata of their own
+  ccache_params_local.consider_obj_metadata = false;
   ccache_params_local.cache_size = fifo_cache_size;
   params->fifo = FIFO_init(ccache_params_local, NULL);
 
diff --git a/libCacheSim/cache/eviction/S3FIFOd.c b/libCacheSim/cache/eviction/S3FIFOd.c
index 82a2b56..00738ad 100644
--- a/libCacheSim/cache/eviction/S3FIFOd.c
+++ b/libCacheSim/cache/eviction/S3FIFOd.c
@@ -107,6 +107,9 @@ cache_t *S3FIFOd_init(const common_cache_params_t ccache_params,
   int64_t fifo_ghost_cache_size = main_cache_size;
 
   common_cache_params_t ccache_params_local = ccache_params;
+  // the size of an object is its request's size (obj_md_size is 0), so the
+  // queues must not add metadata of their own
+  ccache_params_local.consider_obj_metadata = false;
   ccache_params_local.cache_size = fifo_cache_size;
   params->fifo = FIFO_init(ccache_params_local, NULL);
 
diff --git a/libCacheSim/cache/eviction/TwoQ.c b/libCacheSim/cache/eviction/TwoQ.c
index 7e988ec..2cc8bab 100644
--- a/libCacheSim/cache/eviction/TwoQ.c
+++ b/libCacheSim/cache/eviction/TwoQ.c
@@ -100,6 +100,9 @@ cache_t *TwoQ_init(const common_cache_params_t ccache_params,
   params->Am_cache_size = ccache_params.cache_size - params->Ain_cache_size;
 
   common_cache_params_t ccache_params_local = ccache_params;
+  // the size of an object is its request's size (obj_md_size is 0), so the
+  // queues must not add metadata of their own
+  ccache_params_local.consider_obj_metadata = false;
   ccache_params_local.cache_size = params->Ain_cache_size;
   params->Ain = FIFO_init(ccache_params_local, NULL);
 
-- 
2.43.0

