From 77edec38c06675022d30293e9da8d36046cb9564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 01/40] fix: store does not free an entry that was never
 allocated

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..9b1863d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1549,7 +1549,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
     struct entry *entry = entry_new(key, keylen, val, vallen, expires,
         opts->flags, shard->cas, ctx);
     if (!entry) {
-        goto nomem;
+        return POGOCACHE_NOMEM;
     }
     entry_settime(entry, now);
     if (opts->lowmem && ctx->noevict) {
-- 
2.43.0


From f366204844d46989e69577d913b797840b0cb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 02/40] fix: pogocache_new leaves no shard uninitialized when
 out of memory

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 9b1863d..c574764 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1225,7 +1225,7 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     if (!cache) {
         return 0;
     }
-    memset(cache, 0, sizeof(struct pogocache));
+    memset(cache, 0, size);
     struct pgctx *ctx = &cache->ctx;
     opts_to_ctx(shards, opts, ctx);
     ctx->malloc = _malloc;
-- 
2.43.0


From e477e2e218d7bda09fdb01e178347ab9f38a7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 03/40] fix: clear empties the existing buckets when out of
 memory

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index c574764..8f3f34f 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2002,7 +2002,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 1d4b5d84d5f7a541d0d783396080cb90b0c0873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 04/40] fix: keep the entries size correct when entries expire
 or are updated

---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 8f3f34f..492890b 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1415,7 +1415,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1438,6 +1438,8 @@ static int loadop(const void *key, size_t keylen,
             }
             entry_settime(entry2, now);
             set_entry(bkt, entry2);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
         }
@@ -1685,7 +1687,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1707,7 +1709,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1767,7 +1769,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1923,7 +1925,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From 8882bad8341f47df91fb55df696ee3c8b67f01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 05/40] fix: iter and sweep visit each entry exactly once

---
 src/pogocache.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 492890b..f343295 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -962,6 +962,18 @@ static void delbkt(struct map *map, size_t i) {
     map->count--;
 }
 
+// Returns a bucket to start a full scan from. Deleting an entry moves entries
+// one bucket to the left, from as far as the next empty bucket. When the scan
+// starts at an empty bucket then no entry is moved across the starting point.
+static int scanstart(struct map *map) {
+    for (int i = 0; i < map->nbuckets; i++) {
+        if (get_dib(&map->buckets[i]) == 0) {
+            return i;
+        }
+    }
+    return 0;
+}
+
 static bool needsshrink(struct map *map, struct pgctx *ctx) {
     return ctx->allowshrink && map->nbuckets > map->cap && 
         map->count <= map->shrinkat;
@@ -1679,15 +1691,17 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
+    int start = scanstart(&shard->map);
     for (int i = 0; i < shard->map.nbuckets; i++) {
-        struct bucket *bkt = &shard->map.buckets[i];
+        int bidx = (start+i)&shard->map.mask;
+        struct bucket *bkt = &shard->map.buckets[bidx];
         if (get_dib(bkt) == 0) {
             continue;
         }
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delentry_at_bkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, bidx);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1709,7 +1723,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delentry_at_bkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, bidx);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1912,8 +1926,10 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
+    int start = scanstart(&shard->map);
     for (int i = 0; i < shard->map.nbuckets; i++) {
-        struct bucket *bkt = &shard->map.buckets[i];
+        int bidx = (start+i)&shard->map.mask;
+        struct bucket *bkt = &shard->map.buckets[bidx];
         if (get_dib(bkt) == 0) {
             continue;
         }
@@ -1925,7 +1941,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delentry_at_bkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From ed8c0aeac23e69f9bec56ab32307ae0f6dcf3459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 06/40] fix: reject an entry cursor past the last shard

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index f343295..50ee3a7 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1803,7 +1803,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     assert(cursor);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= cache->ctx.nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
-- 
2.43.0


From 658b00f0908909a561ae246766420c6f096ba1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 07/40] fix: operations over many shards work on a batch

---
 src/pogocache.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 50ee3a7..8c44924 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1393,10 +1393,13 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 })
 
 // Acquire a lock on the shard at index and execute the provided operation.
+// The 'cache' variable is left as is. It may be a batch, which is then needed
+// for acquiring the next shard.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
     struct shard *shard; \
-    bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+    struct pogocache *root = cache; \
+    bool usebatch = acquire_for_scan((shardidx), &shard, &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1754,12 +1757,12 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
             return POGOCACHE_FINISHED;
         }
         return ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
-            iterop(shard, opts->oneshardidx, now, opts, &cache->ctx)
+            iterop(shard, opts->oneshardidx, now, opts, ctx)
         );
     }
     for (int i = 0; i < nshards; i++) {
         int status = ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-            iterop(shard, i, now, opts, &cache->ctx)
+            iterop(shard, i, now, opts, ctx)
         );
         if (status != POGOCACHE_FINISHED) {
             return status;
@@ -1801,9 +1804,10 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int64_t time, uint64_t *cursor)
 {
     assert(cursor);
+    int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx >= cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1821,7 +1825,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
@@ -1969,7 +1973,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
         if (opts->oneshardidx >= 0 && opts->oneshardidx < nshards) {
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
                 sweepop(shard, opts->oneshardidx, now, &sweptc, &keptc,
-                    &cache->ctx);
+                    ctx);
             );
         }
     } else {
@@ -1977,7 +1981,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
             size_t sweptc2 = 0;
             size_t keptc2 = 0;
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-                sweepop(shard, i, now, &sweptc2, &keptc2, &cache->ctx);
+                sweepop(shard, i, now, &sweptc2, &keptc2, ctx);
             );
             sweptc += sweptc2;
             keptc += keptc2;
@@ -2044,7 +2048,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *rctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2053,10 +2057,10 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
     if (buckets) {
         for (int i = 0; i < nbuckets; i++) {
             if (get_dib(&buckets[i])) {
-                entry_free(get_entry(&buckets[i]), ctx);
+                entry_free(get_entry(&buckets[i]), rctx);
             }
         }
-        cache->ctx.free(buckets);
+        rctx->free(buckets);
     }
 }
 
@@ -2074,7 +2078,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2133,7 +2137,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2144,7 +2148,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf,
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2158,7 +2163,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0,
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 7681c8cfacf04f8cbbef5f3a9f39d8d488957ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 08/40] fix: total does not count entries that were not stored

---
 src/pogocache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index 8c44924..99af169 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1515,6 +1515,7 @@ static int deleteop(const void *key, size_t keylen,
             bool ok = map_insert(&shard->map, entry, hash, &old, ctx);
             assert(ok);
             assert(!old);
+            shard->map.total--;
             return POGOCACHE_CANCELED;
         }
     }
@@ -1543,6 +1544,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
     int shardidx, uint32_t hash, struct pgctx *ctx)
 {
     int count = shard->map.count;
+    uint64_t total = shard->map.total;
     opts = opts ? opts : &defstoreopts;
     int64_t now = opts->time > 0 ? opts->time : getnow();
     int64_t expires = 0;
@@ -1622,6 +1624,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
         struct entry *e = map_delete(&shard->map, key, keylen, hash, ctx);
         assert(e == entry);
         entry_free(entry, ctx);
+        shard->map.total = total;
         return POGOCACHE_NOTFOUND;
     }
     if (old && opts->entry) {
-- 
2.43.0


From 916400e5192c6d7e88b841ae27128f902c8506c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 09/40] fix: an empty or blank argument is not a number

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..124b394 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((uint8_t)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((uint8_t)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From e531fa6a9fbc7591b9f26215f6fb15cfa6c46dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 10/40] fix: an escaped question mark in a pattern matches only
 itself

---
 src/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 124b394..3166b49 100644
--- a/src/util.c
+++ b/src/util.c
@@ -406,9 +406,11 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
     while (plen > 0) {
+        bool escaped = false;
         if (pat[0] == '\\') {
             if (plen == 1) return false;
             pat++; plen--; 
+            escaped = true;
         } else if (pat[0] == '*') {
             if (plen == 1) return true;
             if (pat[1] == '*') {
@@ -424,7 +426,7 @@ bool match(const char *pat, size_t plen, const char *str, size_t slen,
             continue;
         }
         if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
+        if ((pat[0] != '?' || escaped) && str[0] != pat[0]) return false;
         pat++; plen--;
         str++; slen--;
     }
-- 
2.43.0


From c48221d0bfea357d45f35a9e1e3f2a62cbd0902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 11/40] fix: a RESP length is read from its own line only

---
 src/resp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..80eecc2 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -136,10 +136,8 @@ fail_argsz:
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
-    errno = 0;
-    char *end;
-    int64_t x = strtoll(data, &end, 10);
-    *ok = errno == 0 && (size_t)(end-data) == len && x >= min && x <= max;
+    int64_t x = 0;
+    *ok = parse_i64(data, len, &x) && x >= min && x <= max;
     return x;
 }
 
-- 
2.43.0


From b411dfb01fe202b88a866c9a00523cbfd60bd5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 12/40] fix: wait for the first line before choosing a protocol

---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..fc13ab6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -56,6 +56,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0) {
+        // Not enough data to determine yet
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
-- 
2.43.0


From ba8108974efa927f64c40c5159994f5bc10ed11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 13/40] fix: a carriage return before a space does not end a
 memcache line

---
 src/memcache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..54e7e71 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -74,6 +74,7 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
             // if (wn > 0) {
             args_append(args, s, wn, true);
             s = p;
+            last = ch;
             continue;
         }
         if (ch == '\n') {
-- 
2.43.0


From 13022958a8d92218972f10053b12e4d09fbc749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 14/40] fix: memcache storage commands check the number of
 arguments

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 54e7e71..8983a29 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -207,7 +207,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
-- 
2.43.0


From d8ffe1fa308b0248b931ea103e302f73fa28ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 15/40] fix: memcache gat and gats take the expiration before
 the keys

---
 src/memcache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 8983a29..92ac375 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -360,7 +360,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         }
         // check exptime
         int64_t x;
-        if (!argi64(args, 2, &x)) {
+        if (!argi64(args, 1, &x)) {
             parse_seterror(CLIENT_ERROR_BAD_FORMAT);
             return -1;
         }
@@ -383,7 +383,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         }
         // check exptime
         int64_t x;
-        if (!argi64(args, 2, &x)) {
+        if (!argi64(args, 1, &x)) {
             parse_seterror(CLIENT_ERROR_BAD_FORMAT);
             return -1;
         }
-- 
2.43.0


From ff8ea12440cbfc4c661ba7ee7ae0bb9bf6ce2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 16/40] fix: memcache verbosity

---
 src/memcache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache.c b/src/memcache.c
index 92ac375..bc0f901 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -462,11 +462,11 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-        args_append(&args2, "verbosity", 7, true);
+        args_append(&args2, "verbosity", 9, true);
         take_and_append_arg(1);
     } else {
         return -1;
-- 
2.43.0


From 5fc3bf0f2274a7af4f7dc8ac397f3d3dfb5f97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 17/40] fix: an HTTP request may have no headers, and may
 arrive in pieces

---
 src/http.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/http.c b/src/http.c
index 7b786af..473b029 100644
--- a/src/http.c
+++ b/src/http.c
@@ -108,8 +108,21 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
         
         p++;
     }
-    goto badreq;
+    // Not enough data for the request line
+    return 0;
 readhdrs:
+    if (p < e && *p == '\r') {
+        // There are no headers
+        p++;
+        if (p == e) {
+            return 0;
+        }
+        if (*p != '\n') {
+            goto badreq;
+        }
+        p++;
+        goto readbody;
+    }
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
         hdrname = p;
@@ -160,11 +173,13 @@ readhdrs:
                         p++;
                         if (p < e && *p == '\r') {
                             p++;
-                            if (p < e && *p == '\n') {
-                                p++;
-                            } else {
+                            if (p == e) {
+                                return 0;
+                            }
+                            if (*p != '\n') {
                                 goto badreq;
                             }
+                            p++;
                             goto readbody;
                         }
                         break;
-- 
2.43.0


From d8f4e5c9877dd20ae8db00cd178b90dd5c5c5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 18/40] fix: the last HTTP query parameter may be followed by
 an ampersand

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 473b029..2ace875 100644
--- a/src/http.c
+++ b/src/http.c
@@ -268,7 +268,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From 32aedaec93b6bd3f8ab1b6d9d4b96c4790f07685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 19/40] fix: control characters are kept out of every reply
 line

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..9d79666 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -238,7 +238,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From aae40b1d0232bacd215bbafbc7f1b5c6ab4f0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 20/40] fix: a quoted postgres string may contain quotes

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..d482076 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From 4ed350ddcfabe8d747b1600209ca79092e85f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 21/40] fix: an escaped character in a postgres string is kept

---
 src/postgres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index d482076..b2bc0cf 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -414,7 +414,8 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
             ii--; \
             continue; \
         default: \
-            continue; \
+            ch = (jstr)[ii]; \
+            break; \
         }; \
         if (1) f \
     } \
-- 
2.43.0


From c96dbb684b09559a5c3201c056f06c0fe689f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 22/40] fix: the first surrogates are surrogates

---
 src/postgres.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index b2bc0cf..f109770 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,11 +337,11 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
+    return cp1 >= 55296 && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
         ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
         65533;
 }
-- 
2.43.0


From 5e1b5cc83d182cce488dc60bdedc1a71aca6d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 23/40] fix: a postgres parameter may be used more than once

---
 src/postgres.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index f109770..371ccb0 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -568,7 +568,9 @@ static bool parse_query_args(const char *query, struct args *args,
                     parse_errorf("there is no parameter $%ld", param);
                     goto done;
                 }
-                pmap_insert(&pmap, param);
+                if (!pmap_exists(&pmap, param)) {
+                    pmap_insert(&pmap, param);
+                }
                 args_append(args, p, e-p, true);
                 if (argtypes) {
                     buf_append_byte(argtypes, 'P'+join);
-- 
2.43.0


From 459275e46ffca0be35f7850f5a638cf8f3a25731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 24/40] fix: reject a postgres message with an invalid length

---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 371ccb0..ebbc352 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1072,7 +1072,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t size = read_i32(data+1);
+    if (size < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = size;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From 89d729cbcc74a8c184028e737d5f42e16d74f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 25/40] fix: removing the first argument leaves no copy of the
 last one behind

---
 src/args.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..53d670a 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,7 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        // The last one was moved, leave nothing behind.
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From 5cdaedc86d221af8053cf3801fe87babd90bd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 26/40] fix: decode surrogate pairs past U+1FFFF

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index ebbc352..93ca738 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -342,7 +342,7 @@ static bool is_surrogate(uint32_t cp) {
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
     return cp1 >= 55296 && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+        ((cp1 - 55296) << 10) + (cp2 - 56320) + 65536 :
         65533;
 }
 
-- 
2.43.0


From 0fc1a55e14d6eae91e3e4d07cc408e127b99df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 27/40] fix: no stray byte after a memcache NOT_FOUND

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..337f547 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -125,7 +125,7 @@ static void execSET(struct conn *conn, const char *cmdname,
             if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From e98c67d4474094b74c9775f1993e006ab70f98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 28/40] fix: a command lookup stays inside of the table

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 337f547..c422cfe 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -2372,7 +2372,7 @@ static struct cmd *get_cmd(const char *name, size_t namelen) {
         if (argeq_bytes(name, namelen, buckets[j].name)) {
             return &buckets[j];
         }
-        j++;
+        j = (j+1)&(nbuckets-1);
     }
 }
 
-- 
2.43.0


From 00659ba3e6c0212a34e252306915eb35d73d0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 29/40] fix: EXAT and PXAT are unix times

---
 src/cmds.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index c422cfe..02107af 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -167,6 +167,12 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Convert an absolute unix expiration to the clock of the cache.
+static int64_t expiry_unix_time(int64_t now, int64_t expiry) {
+    expiry -= sys_unixnow();
+    return expiry > 0 ? int64_add_clamp(now, expiry) : now;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -245,9 +251,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From 09767be9cceee2280e5adc5853f0d56349ef6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 30/40] fix: expire with a negative or unix time

---
 src/cmds.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 02107af..375e7bb 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1037,7 +1037,13 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         return;
     }
     expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
+    if (expires < 0) {
+        // Already expired
+        expires = now;
+    } else if (expires > 0 || conn_proto(conn) != PROTO_MEMCACHE) {
+        // A zero expiration for memcache means that it never expires
+        expires = expiry_seconds_time(conn, now, expires);
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From 04c090cb6cae8d26a74fe117ca91363b9fd30292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 31/40] fix: a memcache decr stops at zero

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 375e7bb..6434e3e 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1717,6 +1717,10 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
     if (overflow && conn_proto(conn) != PROTO_MEMCACHE) {
         goto fail_overflow;
     }
+    if (overflow && decr) {
+        // A memcache decrement stops at zero, an increment wraps around
+        ctx.uval = 0;
+    }
     // re-set the value
     char val[24];
     size_t vallen;
-- 
2.43.0


From 5bccddd9ceea1df24eba83d0ee3dc84b12b7967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 32/40] fix: an entry that expires at load time is not loaded

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 39fbe9b..31d37a8 100644
--- a/src/save.c
+++ b/src/save.c
@@ -344,7 +344,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From 17489a360926e167c396b6135f1f30043a08bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 33/40] fix: notice a thread that could not be created

---
 src/save.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/save.c b/src/save.c
index 31d37a8..6a57ed3 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,11 +444,12 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        int ret = pthread_create(&ctx->th, 0, thload, ctx);
+        if (ret != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-                therrnum = errno;
+                therrnum = ret;
             }
         }
     }
-- 
2.43.0


From 5e39cb342fb0d1af6b6e296969ec0ed0eb467b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 34/40] fix: a shard of more than 2 GB is saved in many blocks

---
 src/save.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 6a57ed3..2cfe509 100644
--- a/src/save.c
+++ b/src/save.c
@@ -32,6 +32,7 @@
 
 #define BLOCKSIZE 1048576
 #define COMPRESS
+#define MAXBLOCK 536870912  // Flush a block that has more than this many bytes
 
 extern struct pogocache *cache;
 extern const int verb;
@@ -48,6 +49,7 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    int64_t unixtime;      // unix timestamp of the entries
 };
 
 static int flush(struct savectx *ctx) {
@@ -62,6 +64,10 @@ static int flush(struct savectx *ctx) {
     // Compress the block
     uint32_t len = LZ4_compress_default((char*)ctx->buf.data, 
         (char*)ctx->dst.data+16, ctx->buf.len, bounds);
+    if (len == 0) {
+        errno = EFBIG;
+        return -1;
+    }
     // The block is now compressed.
     // Genreate a checksum of the compressed data.
     uint32_t crc = crc32(ctx->dst.data+16, len);
@@ -114,6 +120,12 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
     buf_append_uvarint(&ctx->buf, flags);
     buf_append_uvarint(&ctx->buf, cas);
     ctx->nentries++;
+    if (ctx->buf.len > MAXBLOCK) {
+        if (flush(ctx) == -1) {
+            return POGOCACHE_ITER_STOP;
+        }
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
+    }
     return POGOCACHE_ITER_CONTINUE;
 }
 
@@ -129,7 +141,8 @@ static void *thsave(void *arg) {
             .udata = ctx,
         };
         // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
-- 
2.43.0


From 9c765c11c09618edbba13203f9ab1266e59e9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 35/40] fix: free the path when the work file cannot be opened

---
 src/save.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save.c b/src/save.c
index 2cfe509..7317cdc 100644
--- a/src/save.c
+++ b/src/save.c
@@ -170,6 +170,7 @@ int save(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        xfree(workpath);
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0


From 924680224f6dc1cd20174e5014e01a71ba683ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 36/40] fix: --autosweep=no

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b3dbbbf..ee9a202 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
-- 
2.43.0


From 0722886f26c2c2cdc14655ef238b46ad587f64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 37/40] fix: --sixpack=no

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index ee9a202..d1dfcf6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -754,6 +754,7 @@ int main(int argc, char *argv[]) {
         .nshards = nshards,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
+        .nosixpack = !usesixpack,
         .allowshrink = true,
         .usethreadbatch = true,
     };
-- 
2.43.0


From 0d164dd5a25caea4d2b48674a10ffe57e5a86499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 38/40] fix: monitor appends only the escaped byte

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From b6b140739d04eb02902185088e502ca99e5bb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 39/40] fix: keep the bytes after an HTTP request for the next
 one

---
 src/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http.c b/src/http.c
index 2ace875..176f9b1 100644
--- a/src/http.c
+++ b/src/http.c
@@ -198,7 +198,7 @@ readbody:
         return 0;
     }
     const char *body = p;
-    p = e;
+    p += bodylen;
 
     // check
     if (urilen == 0 || uri[0] != '/') {
@@ -359,7 +359,7 @@ readbody:
         }
 
     }
-    return e-data;
+    return p-data;
 badreq:
     parse_seterror("Bad Request");
     return -1;
-- 
2.43.0


From 9ff82d37169653255da6c05f442ec130bcb2734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 40/40] fix: notice a thread that could not be created, in the
 other places too

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 6434e3e..8774af0 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -715,7 +715,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -828,7 +828,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1143,7 +1143,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1230,7 +1230,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1293,7 +1293,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1409,7 +1409,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index d1dfcf6..0c3f4af 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index e822fbf..bea6950 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1223,7 +1223,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1233,7 +1233,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1284,7 +1284,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
-- 
2.43.0

