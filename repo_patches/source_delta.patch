From 8f0661cecff52f711d1ad05385eb9acd5e404d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:20 +0000
Subject: [PATCH 01/68] fix: tx cache: keep entries reachable after a removal
 and bound the size by the table

Backshift deletion stopped at the first entry in its home bucket, which cut
later entries of the cluster off (lost entries, stale duplicates, wrong size).
A limit of the table size or more made lookups in a full table endless.
---
 src/chains/eth/prover/tx_cache.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 31faa67..804aad1 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -120,13 +120,12 @@ static void table_delete_at(size_t pos) {
   while (g_table[j].used) {
     uint64_t h    = hash_bytes32(g_table[j].key);
     size_t   home = table_index(h);
-    // If entry is in its home bucket, stop shifting
-    if (home == j) {
-      break;
+    // Move the entry into the gap unless its home bucket lies (cyclically) behind the gap
+    if (((j - home) & (TABLE_CAPACITY - 1u)) >= ((j - i) & (TABLE_CAPACITY - 1u))) {
+      g_table[i] = g_table[j];
+      i          = j;
     }
-    g_table[i] = g_table[j];
-    i          = j;
-    j          = (j + 1u) & (TABLE_CAPACITY - 1u);
+    j = (j + 1u) & (TABLE_CAPACITY - 1u);
   }
   g_table[i].used = false;
 }
@@ -279,6 +278,7 @@ void c4_eth_tx_cache_reserve(uint32_t number_of_entries_to_add) {
 
 void c4_eth_tx_cache_set_max_size(uint32_t max) {
   if (max == 0) max = 1; // avoid zero which breaks invariants
+  if (max >= TABLE_CAPACITY) max = TABLE_CAPACITY - 1u; // lookups need at least one free bucket to terminate
   g_max_tx_cache_size = (size_t) max;
   // Ensure we do not exceed the new limit
   clean_up_cache(0);
-- 
2.43.0


From a7b7bb77a734d9ec0e791f6dfbf4381de21803e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:20 +0000
Subject: [PATCH 02/68] fix: prover cache: release the shared entry which was
 actually borrowed

A context which held an entry that was invalidated meanwhile either never
released it (leak) or released a newer entry with the same key, which could
then be freed while still in use.
---
 src/prover/prover.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index 934e1f4..7f3b10a 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -290,6 +290,15 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   return NULL; // Not found
 }
 
+// Find the global cache entry a local entry was copied from, even if it has been invalidated since then
+static cache_entry_t* find_global_cache_source(cache_entry_t* local_entry) {
+  for (size_t i = 0; i < global_cache_array.count; ++i) {
+    cache_entry_t* entry = &global_cache_array.entries[i];
+    if (entry->value == local_entry->value && CACHE_KEY_MATCH(entry, local_entry->key)) return entry;
+  }
+  return NULL;
+}
+
 // Invalidate a specific entry in the global cache by setting its timestamp to 0
 void c4_prover_cache_invalidate(bytes32_t key) {
   cache_entry_t* entry = find_global_cache_entry(key);
@@ -400,8 +409,9 @@ void c4_prover_free(prover_ctx_t* ctx) {
 
       if (current_local_entry->from_global_cache) {
         // This was copied from global, decrement the counter on the source.
-        // Re-find the global entry by key before decrementing for safety against realloc.
-        cache_entry_t* global_src = find_global_cache_entry(current_local_entry->key.bytes32);
+        // Re-find the global entry before decrementing for safety against realloc. The source may have been
+        // invalidated (and replaced) in the meantime, so it is identified by key and value.
+        cache_entry_t* global_src = find_global_cache_source(current_local_entry);
         if (global_src && global_src->use_counter > 0) // Prevent underflow
           global_src->use_counter--;
         else
-- 
2.43.0


From 81d122f566992419ebf031e85f8aba72d1bea35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 03/68] fix: logs cache: replace re-announced blocks, keep
 numbers after rotation, order and completeness of results

- a block announced again (duplicate head or reorg) was looked up without the ring offset and its events were appended
- after the ring was full the new entry had no block number, so ranges and receipts were wrong
- filters with more than 16 bloom variants disabled the prefilter by rejecting every block (empty result)
- logs were returned in reverse order
---
 src/chains/eth/prover/logs_cache.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 00bd113..bb204c3 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -163,8 +163,11 @@ static void bloom_add_element_buf(uint8_t bloom[256], bytes_t element) {
  */
 static block_entry_t* push_block(uint64_t block_number) {
   // block is already in the cache?
-  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number)
-    return g_cache.blocks + ((block_number - g_cache.start_number) % g_cache.blocks_count);
+  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number) {
+    block_entry_t* existing = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (block_number - g_cache.start_number)) % g_cache.blocks_count);
+    existing->events_count  = 0; // the block is replaced (announced again or reorg)
+    return existing;
+  }
 
   // is previous block in the cache? if not, we need to reset in order to have a contiguous cache
   if (g_cache.start_number && g_cache.start_number + g_cache.blocks_count != block_number) {
@@ -178,6 +181,7 @@ static block_entry_t* push_block(uint64_t block_number) {
     block_entry_t* oldest = &g_cache.blocks[g_cache.start_idx];            // current oldest block spot will be used for the new block.
     safe_free(oldest->events);                                             // clean up old events
     memset(oldest, 0, sizeof(block_entry_t));                              // clear the block entry
+    oldest->block_number = block_number;                                   // and assign it to the new block
     g_cache.start_idx    = (g_cache.start_idx + 1) % g_cache.blocks_count; // rotate to next block
     g_cache.start_number = g_cache.blocks[g_cache.start_idx].block_number; // update the start number to the new oldest block
     return oldest;
@@ -312,20 +316,20 @@ static log_cache_state_t* get_log_state(prover_ctx_t* ctx) {
 }
 
 static inline tx_result_t* ensure_tx_result(block_result_t* b, uint32_t tx_idx) {
-  for (tx_result_t* t = b->txs; t; t = t->next)
-    if (t->tx_idx == tx_idx) return t;
+  tx_result_t** tail = &b->txs; // appended, so the result keeps the order of the chain
+  for (; *tail; tail = &(*tail)->next)
+    if ((*tail)->tx_idx == tx_idx) return *tail;
   tx_result_t* t = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
   t->tx_idx      = tx_idx;
-  t->next        = b->txs;
-  b->txs         = t;
+  *tail          = t;
   return t;
 }
 
 static inline block_result_t* add_block_result(block_result_t** head, uint64_t block_number) {
   block_result_t* b = (block_result_t*) safe_calloc(1, sizeof(block_result_t));
   b->block_number   = block_number;
-  b->next           = *head;
-  *head             = b;
+  while (*head) head = &(*head)->next; // appended, so the result keeps the order of the chain
+  *head = b;
   return b;
 }
 
@@ -346,9 +350,10 @@ static inline bool bloom_subset_of64(const uint64_t* small, const uint64_t* big)
  * @param variant_count Number of bloom variants generated from the filter.
  * @param variants Array of 256-byte bloom filters (flattened).
  * @param logs_bloom64 Block's logs bloom filter.
- * @return True if any variant is a subset of the block bloom.
+ * @return True if any variant is a subset of the block bloom or if there are no variants (prefilter disabled).
  */
 static inline bool bloom_matches(int variant_count, uint64_t* variants, uint64_t* logs_bloom64) {
+  if (variant_count == 0) return true; // no prefilter possible, the events decide
   for (int vi = 0; vi < variant_count; vi++) {
     if (bloom_subset_of64(variants + (vi * 32), logs_bloom64)) return true;
   }
@@ -546,8 +551,9 @@ static void build_match_index(log_cache_state_t* st) {
       // append event
       event_result_t* er = (event_result_t*) safe_calloc(1, sizeof(event_result_t));
       er->log_idx        = ev->log_index;
-      er->next           = txr->events;
-      txr->events        = er;
+      event_result_t** tail = &txr->events;
+      while (*tail) tail = &(*tail)->next;
+      *tail = er;
     }
   }
 }
-- 
2.43.0


From 77028b26291a1643d8b108ff8b92aaea284ba7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 04/68] fix: rlp: never read beyond the data and reject lengths
 exceeding it

---
 src/chains/eth/verifier/rlp.c | 75 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..6a4ed3c 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,51 +23,49 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
-  if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
-}
-
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
   size_t pos = 0, src_idx = 0;
-  for (; src_idx < src->len; src_idx++, pos++) {
-    uint8_t c = src->data[src_idx];
+  for (; src_idx < src->len; pos++) {
+    uint8_t    c        = src->data[src_idx];
+    rlp_type_t type     = c < 0xc0 ? RLP_ITEM : RLP_LIST;
+    size_t     left     = src->len - src_idx; // bytes left including the prefix
+    size_t     prefix   = 1;                  // size of the prefix
+    size_t     len      = 0;                  // size of the payload
+    size_t     len_size = 0;                  // number of bytes used for the length of the payload
     if (c < 0x80) {
-      if ((int) pos == index)
-        return check_range(target, src, 1, src->data + src_idx, 1);
-    }
-    else if (c < 0xb8) {
-      if ((int) pos == index)
-        return check_range(target, src, c - 0x80, src->data + src_idx + 1, RLP_ITEM);
-      src_idx += c - 0x80;
-    }
-    else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
-      if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
-      src_idx += len + c - 0xb7;
+      prefix = 0;
+      len    = 1;
     }
-    else if (c < 0xf8) {
-      size_t len = c - 0xc0;
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + 1, RLP_LIST);
-      src_idx += len;
+    else if (c < 0xb8)
+      len = c - 0x80;
+    else if (c < 0xc0)
+      len_size = c - 0xb7;
+    else if (c < 0xf8)
+      len = c - 0xc0;
+    else
+      len_size = c - 0xf7;
+
+    if (len_size) {
+      if (len_size >= left) return RLP_OUT_OF_RANGE;
+      for (size_t n = 0; n < len_size; n++) {
+        if (len >> 32) return RLP_OUT_OF_RANGE; // can never fit in the source
+        len = (len << 8) | src->data[src_idx + 1 + n];
+      }
+      prefix += len_size;
     }
-    else {
-      size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
-      src_idx += len + c - 0xf7;
+
+    // the whole element must be part of the source
+    if (len > left - prefix) return RLP_OUT_OF_RANGE;
+
+    if ((int) pos == index) {
+      if (!target) return RLP_OUT_OF_RANGE;
+      *target = bytes(src->data + src_idx + prefix, len);
+      return type;
     }
+    src_idx += prefix + len;
   }
 
-  if (index < 0) return src_idx == src->len ? (rlp_type_t) pos : RLP_OUT_OF_RANGE;
-
-  return (src_idx > src->len) ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND;
+  return index < 0 ? (rlp_type_t) pos : RLP_NOT_FOUND;
 }
 
 static void encode_length(buffer_t* buf, uint32_t len, uint8_t offset) {
@@ -128,8 +126,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
-  if (data.len > 8 || !data.len) return 0;
+  if (rlp_decode(&data, index, &data) != RLP_ITEM || data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
   return value;
-- 
2.43.0


From 6a28d5c8d15c4859fdd46988a503554ff44c1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 05/68] fix: patricia: a truncated merkle proof does not prove
 anything and embedded nodes are followed

---
 src/chains/eth/verifier/patricia.c | 130 +++++++++++++----------------
 1 file changed, 59 insertions(+), 71 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..f953dac 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,107 +61,95 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
-static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+// the hash of an empty trie, which is also the hash for an empty proof
+static const uint8_t EMPTY_TRIE_RLP[] = {0x80};
+
+// handles the (rlp-decoded) content of the node
+// returns 0 = invalid, 1 = continue with the node for the next_hash, 2 = value does not exist, 3 = value found
+static int handle_node(bytes_t node, uint8_t** k, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  bytes_t    val  = NULL_BYTES;
+  rlp_type_t type = RLP_NOT_FOUND;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
       if (**k == 0xFF) {
-        if (!last_node || rlp_decode(&node, 16, &node) != RLP_ITEM) return 0;
-        *last_val = node;
-        return node.len == 0 ? 2 : 3;
+        if (rlp_decode(&node, 16, &val) != RLP_ITEM) return 0;
+        *last_val = val;
+        return val.len == 0 ? 2 : 3;
       }
 
-      if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
-        *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
-      }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
-      else
-        memcpy(next_hash, val.data, 32); // the hash of the next node
+      type = rlp_decode(&node, **k, &val);
       *k += 1;
-      return 1;
-
-    case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
-        return 0;
-      else {
-        uint8_t* pn      = patricia_to_nibbles(val, 1);
-        int      match   = patricia_match_nibbles(pn, *k);
-        int      np_len  = count_nibbles(pn);
-        int      is_leaf = *val.data & 32;
-        safe_free(pn);
-
-        if (match < np_len) return last_node ? 2 : 0;
-
-        *k += np_len;
-        if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
-        }
-        else if (**k == 0xFF) { // we reached the end of the path
-          if (is_leaf) {
-            *last_val = val;
-            return last_node ? 3 : 0;
-          }
-          else if (last_node)
-            return 0; // this is an extension node, but the path is not complete
-
-          // follow the extension, which should lead to branch with the value.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-
-          //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
-        }
-        else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
-          return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
-        else {                      // it is an extension and we follow the extension to the branch.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-        }
+      break;
+
+    case NODE_LEAF: { // leaf or extension
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0) return 0;
+      uint8_t* pn      = patricia_to_nibbles(val, 1);
+      int      match   = patricia_match_nibbles(pn, *k);
+      int      np_len  = count_nibbles(pn);
+      int      is_leaf = *val.data & 32;
+      safe_free(pn);
+
+      if (match < np_len) return 2; // the path ends here, so it can not exist
+
+      *k += np_len;
+      type = rlp_decode(&node, 1, &val);
+      if (is_leaf) {
+        if (type != RLP_ITEM) return 0;
+        if (**k != 0xFF) return 2; // we found a leaf matching the path, but the path is not complete yet.
+        *last_val = val;
+        return 3;
       }
+      if (type == RLP_ITEM && val.len != 32) return 0; // a extension must always have a child
+      break;
+    }
 
     default:
       return 0;
   }
+
+  if (type == RLP_LIST) // the child is embedded
+    return handle_node(val, k, last_val, next_hash, depth);
+  if (type != RLP_ITEM) return 0;
+  if (val.len != 32) return val.len == 0 ? 2 : 0; // we got a NULL, which means value does not exists
+  memcpy(next_hash, val.data, 32);                // the hash of the next node
   return 1;
 }
 
 INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* expected) {
-  int       result     = 1;
-  uint8_t*  nibbles    = patricia_to_nibbles(path, 0);
-  uint8_t*  key        = nibbles;
-  bytes_t   last_value = NULL_BYTES;
-  bytes32_t expected_hash;
-  bytes32_t node_hash;
+  int       result        = 0;
+  uint8_t*  nibbles       = patricia_to_nibbles(path, 0);
+  uint8_t*  key           = nibbles;
+  bytes_t   last_value    = NULL_BYTES;
+  bytes32_t expected_hash = {0};
+  bytes32_t node_hash     = {0};
 
   uint32_t proof_len = ssz_len(proof);
   size_t   depth     = 0;
+
+  if (proof_len == 0) { // this is only valid for an empty trie, where no value exists
+    keccak(bytes(EMPTY_TRIE_RLP, 1), root);
+    result = 2;
+  }
+
   for (uint32_t i = 0; i < proof_len; i++) {
     ssz_ob_t witness = ssz_at(proof, i);
+    bytes_t  node    = NULL_BYTES;
     keccak(witness.bytes, node_hash);
-    if (i == 0) {
-      memcpy(expected_hash, node_hash, 32);
+    if (i == 0)
       memcpy(root, node_hash, 32);
-    }
     else if (memcmp(expected_hash, node_hash, 32)) {
       result = 0;
       break;
     }
-    if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
+    result = rlp_decode(&witness.bytes, 0, &node) == RLP_LIST ? handle_node(node, &key, &last_value, expected_hash, &depth) : 0;
+
+    // only the last node may (and must) end the path
+    if ((result == 1) == (i + 1 == proof_len)) result = 0;
+    if (result != 1) break;
   }
 
   if (result && expected)
-- 
2.43.0


From 6479586cd58a111863599e8cdb85c550c7684090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 06/68] fix: json_as_bytes must not exceed the capacity of a
 stack buffer

---
 src/util/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..a2ded5b 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -380,7 +380,7 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
   buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
+  buffer->data.len = buffer->allocated < 0 ? (uint32_t) (0 - buffer->allocated) : value.len / 2; // never write more than the buffer can hold
   int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
   if (len == -1) return NULL_BYTES;
   buffer->data.len = (uint32_t) len;
-- 
2.43.0


From 742f704e6b92c8f210c5da32c130ccf4e9223e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 07/68] fix: account proofs: bind storage keys, values, code
 and block to the request

---
 src/chains/eth/verifier/eth_account.c         | 127 ++++++++++--------
 .../eth/verifier/verify_account_proof.c       |   4 +-
 2 files changed, 74 insertions(+), 57 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..7df1f17 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,10 +56,9 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
-  int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
-  for (int i = 0; i < len; i++) {
+  if (values.data) memset(values.data, 0, values.len);
+  uint32_t len = ssz_len(storage_proofs);
+  for (uint32_t i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
     ssz_ob_t  storage = ssz_at(storage_proofs, i);
@@ -67,9 +66,11 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     ssz_ob_t  key     = ssz_get(&storage, "key");
     bytes_t   leaf    = {0};
     keccak(key.bytes, path);
-    if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
+    patricia_result_t result = patricia_verify(root, bytes(path, 32), proof, &leaf);
+    if (result == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (result == PATRICIA_FOUND && (rlp_decode(&leaf, 0, &leaf) != RLP_ITEM || leaf.len > 32)) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
+    if (values.data && values.len >= (i + 1) * 32 && leaf.len)
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
   }
 
@@ -85,18 +86,13 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   bytes32_t storage_hash  = {0};
 
   keccak(address.bytes, address_hash);
+  memcpy(storage_hash, EMPTY_ROOT_HASH, 32);
 
-  switch (field) {
-    case ETH_ACCOUNT_CODE_HASH:
-      memcpy(values.data, EMPTY_HASH, 32);
-      break;
-    case ETH_ACCOUNT_STORAGE_HASH:
-      memcpy(values.data, EMPTY_ROOT_HASH, 32);
-      break;
-    default:
-      memset(values.data, 0, 32);
-      break;
-  }
+  // default values for a non existing account. (for ETH_ACCOUNT_STORAGE_HASH the values will be set when verifying the storage)
+  if (field == ETH_ACCOUNT_CODE_HASH)
+    memcpy(values.data, EMPTY_HASH, 32);
+  else if (values.len)
+    memset(values.data, 0, values.len);
 
   patricia_result_t result = patricia_verify(state_root, bytes(address_hash, 32), account_proof, &rlp_account);
   if (result == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
@@ -106,13 +102,14 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
     if (rlp_decode(&rlp_account, 0, &rlp_account) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
     if (rlp_decode(&rlp_account, 2, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     // get the storage hash from the proof
-    if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
+    if (field_value.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     memcpy(storage_hash, field_value.data, field_value.len);
 
     // get the field value from the proof
-    if (field) {
+    if (field && field != ETH_ACCOUNT_STORAGE_HASH) {
       if (rlp_decode(&rlp_account, field - 1, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
       if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
+      memset(values.data, 0, 32);
       memcpy(values.data + 32 - field_value.len, field_value.data, field_value.len);
     }
   }
@@ -122,34 +119,27 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// returns the value the merkle proof proves for the given key (or NULL_BYTES if the proof is invalid or proves that there is no such value)
+static bytes_t get_proven_value(bytes_t key, ssz_ob_t proof) {
+  bytes32_t path  = {0};
+  bytes32_t root  = {0};
+  bytes_t   value = NULL_BYTES;
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "key").bytes, ssz_get(&storage, "proof"));
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
+  memset(value, 0, 32);
   memcpy(value + 32 - last_value.len, last_value.data, last_value.len);
   return true;
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_proven_value(ssz_get(&account, "address").bytes, ssz_get(&account, "accountProof"));
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -157,6 +147,16 @@ void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_
   memcpy(value + 32 - last_value.len, last_value.data, last_value.len);
 }
 
+// fetches the code from the cache, but only if it is complete and matches the hash.
+static bool get_cached_code(storage_plugin_t* cache, char* key, bytes32_t code_hash, buffer_t* data) {
+  bytes32_t hash = {0};
+  if (!cache->get(key, data)) return false;
+  keccak(data->data, hash);
+  if (memcmp(hash, code_hash, 32) == 0) return true;
+  buffer_free(data);
+  return false;
+}
+
 INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_codes, ssz_ob_t accounts) {
   c4_status_t      status = C4_SUCCESS;
   storage_plugin_t cache  = {0};
@@ -173,6 +173,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
     if (code.def->type == SSZ_TYPE_BOOLEAN && code.bytes.data[0] == 0) continue; // no code which might be relevant for us
 
     call_code_t* ac = (call_code_t*) safe_calloc(1, sizeof(call_code_t));
+    memcpy(ac->hash, EMPTY_HASH, 32); // a non existing account has no code
     eth_get_account_value(acc, ETH_ACCOUNT_CODE_HASH, ac->hash);
 
     // fetch from cache
@@ -182,7 +183,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = NULL_BYTES;
       ac->free = false;
     }
-    else if (cache.get(bprintf(&buf, "code_%x", bytes(ac->hash, 32)), &data)) {
+    else if (get_cached_code(&cache, bprintf(&buf, "code_%x", bytes(ac->hash, 32)), ac->hash, &data)) {
       ac->code = data.data;
       ac->free = true;
     }
@@ -190,8 +191,9 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      // store in cache (only if the code is correct, otherwise the verification of the accounts will fail later)
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) == 0) cache.set((char*) buf.data.data, ac->code);
     }
     else {
       buffer_reset(&buf);
@@ -272,7 +274,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
 
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  int       args_len           = json_len(ctx->args);
+  json_t    block_number       = args_len ? json_at(ctx->args, args_len - 1) : (json_t) {0};
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
@@ -280,12 +283,13 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
   uint8_t   leafes[64]         = {0};
   memcpy(leafes, state_root, 32);
   memcpy(leafes + 32, block.bytes.data, block.bytes.len);
-  ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root);
+  if (block_number.type == JSON_TYPE_OBJECT && args_len > 1) block_number = json_at(ctx->args, args_len - 2); // the last argument are state overrides
+  if (!ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root)) RETURN_VERIFY_ERROR(ctx, "invalid state proof, missing nodes!");
   if (block_number.type == JSON_TYPE_STRING && strncmp(block_number.start, "\"0x", 3) == 0) {
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
@@ -309,19 +313,28 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
+static bool verify_storage_key(json_t requested_key, ssz_ob_t storage) {
+  uint8_t   tmp[33] = {0};
+  bytes32_t key     = {0};
+  buffer_t  buf     = stack_buffer(tmp);
+  bytes_t   value   = json_as_bytes(requested_key, &buf);
+  if (requested_key.type != JSON_TYPE_STRING || !value.data || !value.len || value.len > 32) return false;
+  memcpy(key + 32 - value.len, value.data, value.len);
+  return bytes_eq(bytes(key, 32), ssz_get(&storage, "key").bytes);
+}
 
-  return node;
+// makes sure the storage proofs are exactly for the keys as requested
+static bool verify_storage_keys(verify_ctx_t* ctx, eth_account_field_t field, ssz_ob_t storage_proof) {
+  uint32_t len  = ssz_len(storage_proof);
+  json_t   keys = json_at(ctx->args, 1);
+  if (field == ETH_ACCOUNT_STORAGE_HASH) return len == 1 && verify_storage_key(keys, ssz_at(storage_proof, 0));
+  if (field == ETH_ACCOUNT_PROOF) {
+    if (keys.type != JSON_TYPE_ARRAY || json_len(keys) != len) return false;
+    for (uint32_t i = 0; i < len; i++) {
+      if (!verify_storage_key(json_at(keys, i), ssz_at(storage_proof, i))) return false;
+    }
+  }
+  return true;
 }
 
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
@@ -329,7 +342,8 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!verify_storage_keys(ctx, field, ssz_get(&ctx->proof, "storageProof"))) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
@@ -351,7 +365,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(bytes(verified_address, 20), ssz_get(&ctx->proof, "accountProof"));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
@@ -392,6 +406,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else if (field == ETH_ACCOUNT_CODE_HASH) {
+    if (data.def != eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) RETURN_VERIFY_ERROR(ctx, "invalid data type for the code!");
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..a025fe0 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -51,6 +51,8 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
+  if (field == ETH_ACCOUNT_NONE) RETURN_VERIFY_ERROR(ctx, "invalid method for an account proof!");
+  if (storage_keys_len > 4096) RETURN_VERIFY_ERROR(ctx, "too many storage keys!");
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
@@ -60,7 +62,7 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
   if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
   if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
-  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
+  if (!eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
 
   ctx->success = true;
   return true;
-- 
2.43.0


From 102ed0ef47da8d628efd79aa12416ef2e71f70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 08/68] fix: block proofs: create the data always from the
 verified payload with the execution layers withdrawalsRoot and check the
 method

---
 src/chains/eth/verifier/verify_block.c | 34 +++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..242f4ab 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,8 +84,7 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
+  // the data is always created from the verified block, whatever the proof may have sent as data is ignored
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
@@ -118,8 +117,31 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
   ctx->flags |= VERIFY_FLAG_FREE_DATA;
 }
 
+// calculates the withdrawalsRoot as used in the execution layer: the root of the patricia trie of all rlp-encoded withdrawals.
+static void create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
+  node_t*   root  = NULL;
+  bytes32_t tmp   = {0};
+  buffer_t  path  = stack_buffer(tmp);
+  buffer_t  value = {0};
+  int       len   = ssz_len(withdrawals);
+
+  for (int i = 0; i < len; i++) {
+    ssz_ob_t withdrawal = ssz_at(withdrawals, i);
+    buffer_reset(&value);
+    rlp_add_uint64(&value, ssz_get_uint64(&withdrawal, "index"));
+    rlp_add_uint64(&value, ssz_get_uint64(&withdrawal, "validatorIndex"));
+    rlp_add_item(&value, ssz_get(&withdrawal, "address").bytes);
+    rlp_add_uint64(&value, ssz_get_uint64(&withdrawal, "amount"));
+    rlp_to_list(&value);
+    patricia_set_value(&root, c4_eth_create_tx_path(i, &path), value.data);
+  }
+  memcpy(withdrawals_root, root ? patricia_get_root(root).data : EMPTY_ROOT_HASH, 32);
+  if (root) patricia_node_free(root);
+  buffer_free(&value);
+}
+
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
-  if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  if (req_block.type != JSON_TYPE_STRING || req_block.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
   if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
@@ -143,13 +165,15 @@ bool verify_block_proof(verify_ctx_t* ctx) {
   ssz_ob_t  proof             = ssz_get(&ctx->proof, "proof");
   ssz_ob_t  header            = ssz_get(&ctx->proof, "header");
 
+  if (ctx->method && strcmp(ctx->method, "eth_getBlockByNumber") && strcmp(ctx->method, "eth_getBlockByHash")) RETURN_VERIFY_ERROR(ctx, "invalid method for block proof!");
+
   // calculate the tree root of the execution payload
   ssz_hash_tree_root(execution_payload, exec_root);
 
   ssz_verify_single_merkle_proof(proof.bytes, exec_root, EXECUTION_PAYLOAD_ROOT_GINDEX, body_root);
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-  ssz_hash_tree_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
+  create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
 
   eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, ssz_get(&header, "parentRoot").bytes.data, exec_root, include_txs);
   if (ctx->state.error || !matches_blocknumber(ctx, execution_payload, block_number)) return false;
@@ -174,6 +198,8 @@ bool verify_block_number_proof(verify_ctx_t* ctx) {
   ssz_ob_t  proof        = ssz_get(&ctx->proof, "proof");
   ssz_ob_t  header       = ssz_get(&ctx->proof, "header");
 
+  if (ctx->method && strcmp(ctx->method, "eth_blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid method for block number proof!");
+
   // calculate the tree root of the execution payload
   if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
-- 
2.43.0


From 2a855f5a804cbbe09215db36f8fbc41fb569ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:49 +0000
Subject: [PATCH 09/68] fix: deneb attester slashings hold uint64 indices

---
 src/chains/eth/ssz/beacon_denep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..6a441e2 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -116,7 +116,7 @@ static const ssz_def_t ATTESTATION_DATA[] = {
 
 // an index attestation is a list of attesting indices, a data and a signature
 static const ssz_def_t INDEX_ATTESTATION[] = {
-    SSZ_LIST("attestingIndices", ssz_uint8, 2048), // the list of attesting indices
+    SSZ_LIST("attestingIndices", ssz_uint64_def, 2048), // the list of attesting indices
     SSZ_CONTAINER("data", ATTESTATION_DATA),       // the data of the attestation
     SSZ_BYTE_VECTOR("signature", 96)               // the BLS signature of the attestation
 };
-- 
2.43.0


From db302da4e07987582b8f3ddce4083dd0f64b3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:12 +0000
Subject: [PATCH 10/68] fix: json_as_uint64 must not write in front of its
 buffer for hex values longer than 8 bytes

---
 src/util/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json.c b/src/util/json.c
index a2ded5b..e3fde75 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -357,6 +357,7 @@ uint64_t json_as_uint64(json_t value) {
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
     if (len == -1) return 0;
+    if (len > 8) return uint64_from_be(tmp + len - 8); // only the lower 64 bits
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
-- 
2.43.0


From d9886539ea35b22c7940e339fbb47d4c6fa623f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:12 +0000
Subject: [PATCH 11/68] fix: transaction, receipt and logs proofs: verify all
 fields of receipts and logs, bind logs to the filter and support large v
 values

---
 src/chains/eth/ssz/verify_data_types.h        |  2 +-
 src/chains/eth/verifier/eth_tx.c              | 64 ++++++++++++++-----
 src/chains/eth/verifier/eth_tx.h              |  4 +-
 src/chains/eth/verifier/verify_logs_proof.c   | 59 +++++++++++++++--
 .../eth/verifier/verify_receipt_proof.c       |  2 +
 src/chains/op/verifier/op_verify_logs.c       |  2 +-
 6 files changed, 107 insertions(+), 26 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index ac2a438..12f5592 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -108,7 +108,7 @@ static const ssz_def_t ETH_TX_DATA[] = {
     SSZ_BYTES32("r"),                                                          // the r value of the transaction
     SSZ_BYTES32("s"),                                                          // the s value of the transaction signature
     SSZ_UINT32("chainId"),                                                     // the chain ID of the transaction
-    SSZ_UINT8("v"),                                                            // the v value of the transaction signature
+    SSZ_UINT64("v"),                                                           // the v value of the transaction signature
     SSZ_UINT64("gas"),                                                         // the gas limit
     SSZ_ADDRESS("from"),                                                       // the sender of the transaction
     SSZ_BYTES("to", 20),                                                       // the target of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..2ee4d2d 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -56,6 +56,11 @@ typedef struct {
   uint32_t         len;
 } rlp_type_defs_t;
 
+// the bits of the optmask for the receipt data
+#define RECEIPT_TO            (1 << 7)
+#define RECEIPT_DEPOSIT_MASK  ((1 << 14) | (1 << 15))
+#define RECEIPT_REQUIRED_MASK (((1 << 14) - 2) & ~RECEIPT_TO)
+
 static const rlp_def_t tx_legacy_defs[] = {
     {"nonce", 1},
     {"gasPrice", 1},
@@ -185,7 +190,7 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
 INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address) {
   buffer_t  buf      = {0};
   bytes32_t raw_hash = {0};
-  bytes_t   last_item;
+  bytes_t   last_item = {0};
   tx_type_t type = 0;
   if (!get_and_remove_tx_type(ctx, &raw_tx, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing type!");
   if (rlp_decode(&raw_tx, 0, &raw_tx) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
@@ -198,7 +203,7 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 4, &last_item) <= RLP_SUCCESS) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,9 +230,9 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid r!");
   memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid s!");
   memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
@@ -270,7 +275,21 @@ static bool matches(ssz_ob_t log, bytes_t logs) {
   return true;
 }
 
-INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw) {
+INTERNAL uint32_t c4_tx_count_equal_logs(ssz_ob_t logs, uint32_t index) {
+  uint32_t count = 0;
+  ssz_ob_t log   = ssz_at(logs, index);
+  for (uint32_t i = 0; i < index; i++) {
+    ssz_ob_t other = ssz_at(logs, i);
+    if (bytes_eq(ssz_get(&log, "blockNumber").bytes, ssz_get(&other, "blockNumber").bytes) &&
+        bytes_eq(ssz_get(&log, "transactionIndex").bytes, ssz_get(&other, "transactionIndex").bytes) &&
+        bytes_eq(ssz_get(&log, "address").bytes, ssz_get(&other, "address").bytes) &&
+        bytes_eq(ssz_get(&log, "topics").bytes, ssz_get(&other, "topics").bytes) &&
+        bytes_eq(ssz_get(&log, "data").bytes, ssz_get(&other, "data").bytes)) count++;
+  }
+  return count;
+}
+
+INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw, uint32_t skip) {
   bytes32_t tx_hash = {0};
   bytes_t   val     = {0};
   bytes_t   logs    = {0};
@@ -280,14 +299,14 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+  if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "log is marked as removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = (int) rlp_decode(&logs, -1, &logs);
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
-    rlp_decode(&logs, i, &log_rlp);
-    if (matches(log, log_rlp)) return true;
+    if (rlp_decode(&logs, i, &log_rlp) == RLP_LIST && matches(log, log_rlp) && skip-- == 0) return true;
   }
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
@@ -301,7 +320,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != ssz_get(&receipt_data, "type").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -316,6 +335,12 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     receipt_raw.len--;
   }
 
+  // all verified fields must be visible and the deposit fields must not be set for other types
+  uint32_t mask = ssz_get_uint32(&receipt_data, "_optmask");
+  if (mask && (mask & RECEIPT_REQUIRED_MASK) != RECEIPT_REQUIRED_MASK) RETURN_VERIFY_ERROR(ctx, "missing fields in the receipt data!");
+  if (mask && val.len && !(mask & RECEIPT_TO)) RETURN_VERIFY_ERROR(ctx, "missing to address in the receipt data!");
+  if (type != TX_TYPE_DEPOSITED && (!mask || (mask & RECEIPT_DEPOSIT_MASK)) && (ssz_get_uint64(&receipt_data, "depositNonce") || ssz_get_uint32(&receipt_data, "depositReceiptVersion"))) RETURN_VERIFY_ERROR(ctx, "unexpected deposit fields in the receipt data!");
+
   if (rlp_decode(&receipt_raw, 0, &tx_raw) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
   if (rlp_decode(&tx_raw, 0, &val) != RLP_ITEM || bytes_as_be(val) != ssz_get_uint64(&receipt_data, "status")) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
   if (rlp_decode(&tx_raw, 1, &val) != RLP_ITEM || bytes_as_be(val) != ssz_get_uint64(&receipt_data, "cumulativeGasUsed")) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
@@ -325,7 +350,8 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&tx_raw, 5, &val) != RLP_ITEM || bytes_as_be(val) != ssz_get_uint64(&receipt_data, "depositReceiptVersion")) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
   }
   if (rlp_decode(&tx_raw, 3, &tx_raw) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
-  ssz_ob_t logs = ssz_get(&receipt_data, "logs");
+  ssz_ob_t logs           = ssz_get(&receipt_data, "logs");
+  uint32_t last_log_index = 0;
   if (ssz_len(logs) != rlp_decode(&tx_raw, -1, &tx_raw)) RETURN_VERIFY_ERROR(ctx, "invalid log len!");
 
   for (uint32_t log_index = 0; log_index < ssz_len(logs); log_index++) {
@@ -336,6 +362,11 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+    if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "log is marked as removed!");
+    if (log_index && ssz_get_uint32(&log, "logIndex") != last_log_index + 1) RETURN_VERIFY_ERROR(ctx, "invalid log index!");
+    last_log_index = ssz_get_uint32(&log, "logIndex");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
@@ -697,7 +728,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   bytes_t  rlp_tx_sig_y_parity              = {0};
   bytes_t  rlp_v_field                      = {0};
   uint8_t  tx_sig_y_parity                  = 0;
-  uint8_t  v_for_ssz                        = 0;
+  uint64_t v_for_ssz                        = 0;
   uint32_t chain_id                         = 0;
   uint64_t gas_price_rlp_val                = 0;
   uint64_t max_priority_fee_per_gas_rlp_val = 0;
@@ -727,10 +758,9 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    v_for_ssz       = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity = (v_for_ssz - 1) % 2;
+    chain_id        = v_for_ssz < 35 ? (uint32_t) c4_chain_specific_id(ctx->chain_id) : (uint32_t) ((v_for_ssz - 35 - tx_sig_y_parity) / 2);
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
@@ -781,7 +811,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   }
 
   ssz_add_uint32(buffer, chain_id);
-  ssz_add_uint8(buffer, v_for_ssz);
+  ssz_add_uint64(buffer, v_for_ssz);
   ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gas", RLP_ITEM)));
   ssz_add_bytes(buffer, "from", bytes(from_address, 20));
   ssz_add_bytes(buffer, "to", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "to", RLP_ITEM));
diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..4e750a5 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -97,7 +97,9 @@ bool    c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* ad
 bool    c4_tx_verify_tx_hash(verify_ctx_t* ctx, bytes_t raw);
 bool    c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
 bool    c4_tx_verify_receipt_proof(verify_ctx_t* ctx, ssz_ob_t receipt_proof, uint32_t tx_index, bytes32_t receipt_root, bytes_t* receipt_raw);
-bool    c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
+// verifies that the log is part of the receipt, where the first skip matching logs are ignored, so identical logs are not counted twice.
+bool     c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw, uint32_t skip);
+uint32_t c4_tx_count_equal_logs(ssz_ob_t logs, uint32_t index); // number of logs before the index with the same content in the same transaction
 bytes_t c4_eth_create_tx_path(uint32_t tx_index, buffer_t* buf);
 bool    c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer, bytes_t raw_tx,
                                   bytes32_t tx_hash, bytes32_t block_hash, uint64_t block_number, uint32_t transaction_index, uint64_t base_fee);
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..7aecd3e 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,11 +83,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -98,7 +93,7 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   for (int i = 0; i < log_len; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (bytes_eq(block_number.bytes, ssz_get(&log, "blockNumber").bytes) && bytes_eq(tidx.bytes, ssz_get(&log, "transactionIndex").bytes)) {
-      if (!c4_tx_verify_log_data(ctx, log, block_hash.data, ssz_uint64(block_number), ssz_uint32(tidx), ssz_get(&tx, "transaction").bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid log data!");
+      if (!c4_tx_verify_log_data(ctx, log, block_hash.data, ssz_uint64(block_number), ssz_uint32(tidx), ssz_get(&tx, "transaction").bytes, raw_receipt, c4_tx_count_equal_logs(ctx->data, i))) RETURN_VERIFY_ERROR(ctx, "invalid log data!");
     }
   }
   return true;
@@ -135,7 +130,58 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
   return false;
 }
 
+// the value matches if the filter is not set, equal or one of the values in the array.
+static bool matches_filter_value(json_t filter, bytes_t value) {
+  if (filter.type == JSON_TYPE_ARRAY) {
+    int len = json_len(filter);
+    for (int i = 0; i < len; i++) {
+      if (matches_filter_value(json_at(filter, i), value)) return true;
+    }
+    return len == 0;
+  }
+  if (filter.type != JSON_TYPE_STRING) return true;
+  bytes32_t tmp      = {0};
+  buffer_t  buf      = stack_buffer(tmp);
+  bytes_t   expected = json_as_bytes(filter, &buf);
+  return value.data && bytes_eq(expected, value);
+}
+
+static bool is_hex(json_t val) {
+  return val.type == JSON_TYPE_STRING && val.len > 4 && val.start[1] == '0' && val.start[2] == 'x';
+}
+
+// makes sure the log is one of those the filter asked for
+static bool matches_filter(json_t filter, ssz_ob_t log) {
+  ssz_ob_t topics        = ssz_get(&log, "topics");
+  uint64_t block_number  = ssz_get_uint64(&log, "blockNumber");
+  json_t   topics_filter = json_get(filter, "topics");
+  json_t   from_block    = json_get(filter, "fromBlock");
+  json_t   to_block      = json_get(filter, "toBlock");
+
+  if (is_hex(from_block) && block_number < json_as_uint64(from_block)) return false;
+  if (is_hex(to_block) && block_number > json_as_uint64(to_block)) return false;
+  if (!matches_filter_value(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (!matches_filter_value(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  if (topics_filter.type == JSON_TYPE_ARRAY) {
+    int len = json_len(topics_filter);
+    for (int i = 0; i < len; i++) {
+      if (!matches_filter_value(json_at(topics_filter, i), i < ssz_len(topics) ? ssz_at(topics, i).bytes : NULL_BYTES)) return false;
+    }
+  }
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  bool verify_logs = ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0;
+  if (ctx->method && !verify_logs && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+
+  // for eth_verifyLogs the logs to verify are always those passed as arguments
+  if (verify_logs && !(ctx->flags & VERIFY_FLAG_FREE_DATA)) {
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    if (ctx->state.error) return false;
+  }
+  if (!verify_logs && !ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "missing logs!");
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
@@ -149,6 +195,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
+    if (!verify_logs && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
   }
 
   ctx->success = true;
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..b224c3d 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -66,6 +66,8 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "missing receipt data!");
+  if (ctx->method && strcmp(ctx->method, "eth_getTransactionReceipt")) RETURN_VERIFY_ERROR(ctx, "invalid method for receipt proof!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..3d5c63e 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -64,7 +64,7 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   for (int i = 0; i < log_len; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (bytes_eq(block_number.bytes, ssz_get(&log, "blockNumber").bytes) && bytes_eq(tidx.bytes, ssz_get(&log, "transactionIndex").bytes)) {
-      if (!c4_tx_verify_log_data(ctx, log, block_hash.data, ssz_uint64(block_number), ssz_uint32(tidx), tx_raw.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid log data!");
+      if (!c4_tx_verify_log_data(ctx, log, block_hash.data, ssz_uint64(block_number), ssz_uint32(tidx), tx_raw.bytes, raw_receipt, c4_tx_count_equal_logs(ctx->data, i))) RETURN_VERIFY_ERROR(ctx, "invalid log data!");
     }
   }
   return true;
-- 
2.43.0


From c284f45332caf65aa50a1e7987d9dfc02fe4762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:48 +0000
Subject: [PATCH 12/68] fix: prover: finalized tag and checkpoint, skip blocks
 without a sufficient signature; verifier: require 2/3 of the sync committee

---
 src/chains/eth/prover/beacon.c          | 32 +++++++++++++++----------
 src/chains/eth/verifier/beacon_header.c | 10 ++++++++
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3a8ddfc..7095205 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -37,7 +37,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
   if (strncmp(block.start, "\"latest\"", 8) == 0)
     sbprintf(((char*) key) + 1, "%s", "latest");
-  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 12) == 0) {
+  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 11) == 0) {
     sbprintf((char*) key, "%s", FINALITY_KEY);
     return;
   }
@@ -56,7 +56,7 @@ static beacon_head_t* c4_beacon_cache_get_slot(prover_ctx_t* ctx, json_t block)
   if (strncmp(block.start, "\"latest\"", 8) == 0 && !cached) {
     log_warn("Slatest block not found in cache, but it is requested! This should not happen!");
   }
-  if (cached && strncmp(block.start, "\"finalized\"", 12) == 0) return cached + 1;
+  if (cached && strncmp(block.start, "\"finalized\"", 11) == 0) return cached + 1;
   return cached;
 }
 static bool c4_beacon_cache_get_blockdata(prover_ctx_t* ctx, bytes32_t block_root, beacon_block_t* beacon_block) {
@@ -232,11 +232,16 @@ static c4_status_t get_block(prover_ctx_t* ctx, beacon_head_t* b, ssz_ob_t* bloc
   return C4_SUCCESS;
 }
 
+// max number of blocks without a sufficient signature we skip in order to find a signature
+#define MAX_SIGN_BLOCK_DISTANCE 32
+
 static bool has_signature(ssz_ob_t* block) {
   if (!block || !block->bytes.data) return false;
   ssz_ob_t sig_body = ssz_get(block, "body");
   ssz_ob_t sync     = ssz_get(&sig_body, "syncAggregate");
-  return !bytes_all_zero(bytes(sync.bytes.data, 64));
+  uint32_t bits     = 0; // the verifier only accepts signatures of at least 2/3 of the sync committee
+  for (int i = 0; i < 512; i++) bits += (sync.bytes.data[i >> 3] >> (i & 7)) & 1;
+  return bits * 3 >= 512 * 2;
 }
 
 c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
@@ -257,17 +262,18 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
   TRY_ADD_ASYNC(status, get_block(ctx, &sign, sig_block));
 
   // check if we have a valid signature
-  if (status == C4_SUCCESS && !has_signature(sig_block)) {
-    if (bytes_all_zero(bytes(sign.root, 32))) { // we fetched the head block
-      if (data_hash) THROW_ERROR("latest block has no signature");
+  for (int i = 0; status == C4_SUCCESS && !has_signature(sig_block); i++) {
+    if (i == MAX_SIGN_BLOCK_DISTANCE) THROW_ERROR("no block found with signature");
+    if (!sign_hash && !data_hash) // we fetched the head block, so we take the latest block with a signature
       memcpy(sign.root, ssz_get(sig_block, "parentRoot").bytes.data, 32);
-    }
     else {
-      json_t header = {0}; // we need to find the next block first
-      TRY_ASYNC(get_beacon_header_by_parent_hash(ctx, sign.root, &header, sign.root));
+      json_t    header = {0}; // we need to find the next block first
+      bytes32_t parent = {0};
+      memcpy(parent, sign.root, 32);
+      TRY_ASYNC(get_beacon_header_by_parent_hash(ctx, parent, &header, sign.root));
       if (header.type == JSON_TYPE_NOT_FOUND) THROW_ERROR("no block found with signature");
     }
-    return c4_eth_get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result);
+    TRY_ASYNC(get_block(ctx, &sign, sig_block));
   }
 
   // handle data_block
@@ -344,7 +350,7 @@ static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes
   json_get_bytes(json_get(result, "finalized"), "root", &buf_finalized);
   if (slot) {
     const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
-    json_t              cp    = json_get(result, safe ? "finalized" : "current_justified");
+    json_t              cp    = json_get(result, safe ? "current_justified" : "finalized");
     *slot                     = json_get_uint64(cp, "epoch") << chain->slots_per_epoch_bits;
   }
 
@@ -362,7 +368,7 @@ c4_status_t c4_eth_update_finality(prover_ctx_t* ctx, bytes32_t checkpoint, uint
   bytes32_t key = {0};
   sbprintf((char*) key, "%s", FINALITY_KEY);
   c4_prover_cache_invalidate(key);
-  return eth_get_final_hash(ctx, true, checkpoint, slot);
+  return eth_get_final_hash(ctx, false, checkpoint, slot);
 }
 #endif
 
@@ -380,7 +386,7 @@ static inline c4_status_t eth_get_block_roots(prover_ctx_t* ctx, json_t block, b
     return C4_SUCCESS; // latest -  we do nothing since 2 empty root_hashes are returned, which will trigger head-requests
   else if (strncmp(block.start, "\"safe\"", 6) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, true, data_root, NULL));
-  else if (strncmp(block.start, "\"finalized\"", 12) == 0)
+  else if (strncmp(block.start, "\"finalized\"", 11) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, false, data_root, NULL));
   else if (block.type == JSON_TYPE_STRING && block.len == 68) // blockhash
     TRY_ASYNC(eth_get_by_hash(ctx, block, data_root));
diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..0bf406f 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -128,6 +128,15 @@ static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header,
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the threat model requires at least 2/3 of the sync committee
+static bool has_supermajority(bytes_t sync_committee_bits) {
+  uint32_t count = 0;
+  for (uint32_t i = 0; i < sync_committee_bits.len; i++) {
+    for (uint8_t b = sync_committee_bits.data[i]; b; b &= b - 1) count++;
+  }
+  return count * 3 >= 512 * 2;
+}
+
 c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_proof) {
   ssz_ob_t header_proof             = ssz_get(&block_proof, "header_proof");
   ssz_ob_t sync_committee_bits      = ssz_get(&header_proof, "sync_committee_bits");
@@ -152,6 +161,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   if (slot == 0) slot = ssz_get_uint64(header, "slot") + 1;
   if (slot == 0) THROW_ERROR("slot is missing in beacon header!");
   if (!spec) THROW_ERROR("unsupported chain id!");
+  if (!has_supermajority(sync_committee_bits->bytes)) THROW_ERROR("the sync committee signature does not have the required 2/3 majority!");
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
-- 
2.43.0


From 1bb094b4c4e7a1783bef7ba44bc7b55f6146304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:40 +0000
Subject: [PATCH 13/68] fix: eth_getProof of a non existing account lists the
 requested storage keys

---
 src/chains/eth/verifier/eth_account.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 7df1f17..d88fa58 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -367,16 +367,17 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
         bytes_t       account       = get_proven_value(bytes(verified_address, 20), ssz_get(&ctx->proof, "accountProof"));
         bytes_t       value         = {0};
+        // a non existing account has also the (empty) values for all keys
+        ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
+        for (int i = 0; i < values.len / 32; i++) {
+          ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
+          ssz_ob_t      storage         = ssz_at(storage_proof, i);
+          ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
+          ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
+          ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
+          ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
+        }
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
-          ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          for (int i = 0; i < values.len / 32; i++) {
-            ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
-            ssz_ob_t      storage         = ssz_at(storage_proof, i);
-            ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
-            ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
-            ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
-          }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
           rlp_decode(&account, 3, &value);
@@ -394,7 +395,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           ssz_add_bytes(&builder, "nonce", bytes(0, 32));
           ssz_add_bytes(&builder, "storageHash", bytes(EMPTY_ROOT_HASH, 32));
           ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_bytes(&builder, "storageProof", NULL_BYTES);
+          ssz_add_builders(&builder, "storageProof", storage_list_builder);
         }
 
         ctx->data = ssz_builder_to_bytes(&builder);
-- 
2.43.0


From a08b0c9eeb92d383f3966f35bfc0daa76750d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:04 +0000
Subject: [PATCH 14/68] fix: light client updates: check the bounds of each
 update and do not request a pending url twice

---
 src/chains/eth/verifier/sync_committee.c      | 107 ++++++++----------
 src/chains/eth/verifier/sync_committee.h      |  12 ++
 .../eth/verifier/sync_committee_state.c       |   3 +
 3 files changed, 63 insertions(+), 59 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..7715a58 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -275,6 +275,46 @@ static bool detect_update_format(bytes_t data) {
          uint32_from_le(data.data) < 1000;
 }
 
+/**
+ * Reads the next light client update from the raw bytes of the response.
+ * This handles both standard SSZ and Lighthouse formats and never reads beyond the data.
+ *
+ * @param ctx Verification context
+ * @param light_client_updates Raw bytes containing one or more light client updates
+ * @param pos the position of the next update, must be 0 for the first call.
+ * @param idx the index of the next update, must be 0 for the first call.
+ * @param update the resulting (valid) update or an empty object if there are no more updates.
+ * @return false, if the data are invalid (in this case the error is set)
+ */
+INTERNAL bool c4_next_light_client_update(verify_ctx_t* ctx, bytes_t light_client_updates, uint64_t* pos, uint32_t* idx, ssz_ob_t* update) {
+  uint64_t data_offset = *pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
+  *update              = (ssz_ob_t) {0};
+  if (*pos + UPDATE_PREFIX_SIZE >= light_client_updates.len) return true; // no more updates
+
+  if (detect_update_format(light_client_updates)) {
+    // Check bounds before reading offset
+    if (((uint64_t) *idx) * SSZ_OFFSET_SIZE + SSZ_OFFSET_SIZE > light_client_updates.len) RETURN_VERIFY_ERROR(ctx, "invalid lighthouse index exceeds data bounds!");
+    *pos = uint32_from_le(light_client_updates.data + (*idx * SSZ_OFFSET_SIZE));
+    if (*pos + UPDATE_PREFIX_SIZE > light_client_updates.len) RETURN_VERIFY_ERROR(ctx, "invalid offset in lighthouse client update!");
+    data_offset = *pos + LIGHTHOUSE_OFFSET_SIZE + SSZ_OFFSET_SIZE;
+  }
+
+  // Check for integer overflow and bounds
+  uint64_t length = uint64_from_le(light_client_updates.data + *pos);
+  if (length < SSZ_OFFSET_SIZE || length > light_client_updates.len || data_offset + length - SSZ_OFFSET_SIZE > light_client_updates.len)
+    RETURN_VERIFY_ERROR(ctx, "invalid length causes overflow or exceeds bounds!");
+
+  update->bytes  = bytes(light_client_updates.data + data_offset, (uint32_t) (length - SSZ_OFFSET_SIZE));
+  fork_id_t fork = c4_eth_get_fork_for_lcu(ctx->chain_id, update->bytes);
+  update->def    = eth_get_light_client_update(fork);
+  *pos += length + SSZ_LENGTH_SIZE;
+  *idx += 1;
+
+  // Validate SSZ structure (checks offsets and ensures all properties exist)
+  if (!update->def || !ssz_is_valid(*update, true, &ctx->state)) RETURN_VERIFY_ERROR(ctx, "Invalid SSZ structure in light client update");
+  return true;
+}
+
 /**
  * Process light client updates with a callback function for each update.
  * This handles both standard SSZ and Lighthouse formats.
@@ -285,66 +325,15 @@ static bool detect_update_format(bytes_t data) {
  * @return true if all updates were processed successfully, false otherwise
  */
 INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*)) {
-  uint64_t length     = 0;
-  bool     success    = true;
-  bool     lighthouse = detect_update_format(light_client_updates);
-  int      idx        = 0;
-
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < light_client_updates.len; pos += length + SSZ_LENGTH_SIZE, idx++) {
-    uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-    uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-
-    if (lighthouse) {
-      // Check bounds before reading offset
-      if (idx * SSZ_OFFSET_SIZE + SSZ_OFFSET_SIZE > light_client_updates.len) {
-        success = false;
-        c4_state_add_error(&ctx->state, "invalid lighthouse index exceeds data bounds!");
-        break;
-      }
-      pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE));
-      if (pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
-        success = false;
-        c4_state_add_error(&ctx->state, "invalid offset in lighthouse client update!");
-        break;
-      }
-      data_offset = pos + LIGHTHOUSE_OFFSET_SIZE + SSZ_OFFSET_SIZE;
-    }
-
-    length = uint64_from_le(light_client_updates.data + pos);
-
-    // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
-      success = false;
-      c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
-      break;
-    }
-
-    bytes_t          light_client_update_bytes = bytes(light_client_updates.data + data_offset, length - data_length_offset);
-    fork_id_t        fork                      = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update_bytes);
-    const ssz_def_t* light_client_update_def   = eth_get_light_client_update(fork);
-
-    if (!light_client_update_def) {
-      success = false;
-      break;
-    }
-
-    ssz_ob_t light_client_update_ob = {.bytes = light_client_update_bytes, .def = light_client_update_def};
-
-    // Validate SSZ structure (checks offsets and ensures all properties exist)
-    if (!ssz_is_valid(light_client_update_ob, true, &ctx->state)) {
-      success = false;
-      c4_state_add_error(&ctx->state, "Invalid SSZ structure in light client update");
-      break;
-    }
-
-    // Process this update using the callback
-    if (!process_update(ctx, &light_client_update_ob)) {
-      success = false;
-      break;
-    }
+  uint64_t pos    = 0;
+  uint32_t idx    = 0;
+  ssz_ob_t update = {0};
+
+  while (true) {
+    if (!c4_next_light_client_update(ctx, light_client_updates, &pos, &idx, &update)) return false;
+    if (!update.def) return true; // all updates processed
+    if (!process_update(ctx, &update)) return false;
   }
-
-  return success;
 }
 
 INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates) {
diff --git a/src/chains/eth/verifier/sync_committee.h b/src/chains/eth/verifier/sync_committee.h
index 234ea26..ea08af7 100644
--- a/src/chains/eth/verifier/sync_committee.h
+++ b/src/chains/eth/verifier/sync_committee.h
@@ -114,6 +114,18 @@ bool c4_update_from_sync_data(verify_ctx_t* ctx);
  */
 bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t client_updates);
 
+/**
+ * Reads the next light client update (standard SSZ and Lighthouse format) and validates its structure.
+ *
+ * @param ctx Verification context
+ * @param light_client_updates Raw SSZ-encoded updates
+ * @param pos position of the next update (0 for the first)
+ * @param idx index of the next update (0 for the first)
+ * @param update the update, or an object without def if there are no more updates
+ * @return false if the data are invalid
+ */
+bool c4_next_light_client_update(verify_ctx_t* ctx, bytes_t light_client_updates, uint64_t* pos, uint32_t* idx, ssz_ob_t* update);
+
 /**
  * Generic iterator for processing light client updates with a callback.
  * Handles both standard SSZ and Lighthouse formats, validates structure,
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..e8e6837 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -195,6 +195,7 @@ static bool req_client_update(c4_state_t* state, uint32_t period, uint32_t count
       c4_state_add_error(state, req->error);
       return false;
     }
+    return false; // still pending
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
@@ -244,6 +245,7 @@ bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t*
       c4_state_add_error(state, req->error);
       return false;
     }
+    return false; // still pending
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
@@ -282,6 +284,7 @@ static bool req_bootstrap(c4_state_t* state, bytes32_t block_root, chain_id_t ch
       c4_state_add_error(state, req->error);
       return false;
     }
+    return false; // still pending
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
-- 
2.43.0


From 81dd302a02cdcffec4e766a0501a656336d60dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:17 +0000
Subject: [PATCH 15/68] fix: sync state: detect incomplete files, keep the
 previous hash, never list a period twice and recover the keys of the period
 before

---
 .../eth/verifier/sync_committee_state.c       | 245 +++++++++---------
 1 file changed, 128 insertions(+), 117 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index e8e6837..c6dc35c 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -348,24 +348,24 @@ c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t bootstrap_data, bytes
  * Cleanup old sync periods when storage limit is reached.
  * Keeps the oldest and latest periods, removes intermediate ones.
  *
+ * The files of the removed periods must be deleted after the state is written, so the state never refers to a deleted file.
+ *
  * @param state Chain state containing period information
- * @param chain_id Chain identifier
  * @param max_states Maximum number of sync states to keep
+ * @param removed the removed periods
+ * @param removed_count number of the removed periods
  * @return Updated number of periods after cleanup
  */
-static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id, uint32_t max_states) {
-  storage_plugin_t storage_conf = {0};
-  c4_get_storage_config(&storage_conf);
+static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states, uint32_t removed[MAX_SYNC_PERIODS], uint32_t* removed_count) {
   uint32_t periods = period_count(state);
-  char     name[100];
 
-  while (periods >= max_states) {
+  while (periods && periods >= max_states) {
     uint32_t oldest       = 0;
     uint32_t latest       = 0;
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (int i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
@@ -390,12 +390,11 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
       oldest       = oldest_2nd;
     }
 
-    // Delete from storage and remove from periods array
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
-    storage_conf.del(name);
+    // remove from periods array
+    removed[(*removed_count)++] = oldest;
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
-    periods--;
+    state->data.periods[--periods] = 0;
   }
 
   return periods;
@@ -451,18 +450,34 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
+  // Store the sync committee data
+  if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
+    return false;
+
+  // a period we already have must not be added twice
+  uint32_t count = period_count(&state);
+  for (uint32_t i = 0; i < count; i++) {
+    if (state.data.periods[i] == period) return true;
+  }
+
   // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  uint32_t removed[MAX_SYNC_PERIODS] = {0};
+  uint32_t removed_count             = 0;
+  uint32_t max_states                = storage_conf.max_sync_states < MAX_SYNC_PERIODS ? storage_conf.max_sync_states : MAX_SYNC_PERIODS;
+  uint32_t periods                   = cleanup_old_periods(&state, max_states, removed, &removed_count);
 
   // Add new period to tracking
   state.data.periods[periods] = period;
 
-  // Store the sync committee data
-  if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
-    return false;
-
   // Update chain state
   c4_set_chain_state(chain_id, &state);
+
+  // now we can delete the files, which are not needed anymore
+  for (uint32_t i = 0; i < removed_count; i++) {
+    char name[100];
+    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, removed[i]);
+    storage_conf.del(name);
+  }
   return true;
 }
 
@@ -543,50 +558,56 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
   sbprintf(name, "sync_%l_%d", (uint64_t) ctx->chain_id, period);
 
   for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
-    uint32_t p = chain_state.data.periods[i];
-    if (p == period) found = true;
-    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
-    highest_period = p > highest_period ? p : highest_period;
+    if (chain_state.data.periods[i] == period) found = true;
   }
 
   if (found && storage_conf.get) storage_conf.get(name, &validators);
   log_debug("fetch from cache %s : %d bytes)", name, validators.data.len);
-  if (validators.data.len % 48 == 32)
-    memcpy(previous_root, validators.data.data + validators.data.len - 32, 32);
 
+  // the file holds the keys, which may be followed by the 32 bytes of the previous_pubkeys_hash. Everything else is incomplete and can not be used.
+  if (validators.data.len % 48 == 32) {
+    memcpy(previous_root, validators.data.data + validators.data.len - 32, 32);
+    validators.data.len -= 32;
+  }
 #ifdef BLS_DESERIALIZE
-  // Check if validators need deserialization (only pubkeys, not including the 32-byte root)
-  size_t expected_serialized_size = 512 * 48 + 32;
-  if (validators.data.data && (validators.data.len == expected_serialized_size || validators.data.len == 512 * 48)) {
+  if (validators.data.len != 512 * 48 && validators.data.len != 512 * 96) validators.data.len = 0;
+  if (validators.data.len == 512 * 48) { // only pubkeys, we need to deserialize
     log_debug("deserializing validators (len=%d)", validators.data.len);
 #ifdef C4_STATIC_MEMORY
     memcpy(keys_48_buffer, validators.data.data, 512 * 48);
     bytes_t b = blst_deserialize_p1_affine(keys_48_buffer, 512, sync_buffer);
+    if (b.data) storage_conf.set(name, b);
 #else
     bytes_t b = blst_deserialize_p1_affine(validators.data.data, 512, NULL);
     buffer_free(&validators);
+    if (b.data) { // store the deserialized keys and keep the previous_pubkeys_hash
+      buffer_append(&prev_data, b);
+      buffer_append(&prev_data, bytes(previous_root, 32));
+      storage_conf.set(name, prev_data.data);
+      buffer_free(&prev_data);
+    }
 #endif
     validators.data = b;
-    storage_conf.set(name, b);
-    //    log_debug("storing deserialized validators: %d bytes", b.len);
-  }
-  else if (validators.data.data && validators.data.len == 512 * 48 + 32) {
-    // Old format without deserialization - just strip the root
-    validators.data.len = 512 * 48;
-    log_debug("stripping root from validators (len=%d)", validators.data.len);
   }
-  else
-    log_debug("found validators (len=%d)", validators.data.len);
-
 #else
-  // Strip the 32-byte root from validators data if present
-  if (validators.data.len >= 32) {
-    validators.data.len -= 32;
-  }
-  log_debug("found validators (NO DESERIALIZATION) (len=%d)", validators.data.len);
+  if (validators.data.len != 512 * 48) validators.data.len = 0;
+#endif
+  log_debug("found validators (len=%d)", validators.data.len);
+
+  if (validators.data.len == 0) {
+#ifndef C4_STATIC_MEMORY
+    buffer_free(&validators);
 #endif
+    validators.data = NULL_BYTES; // just to make sure we mark it as not found, even if we are using static memory
+  }
 
-  if (validators.data.len == 0) validators.data.data = NULL; // just to make sure we mark it as not found, even if we are using static memory
+  // find the closest and the highest period, but ignore the period itself if it is listed, but the keys are missing or incomplete.
+  for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
+    uint32_t p = chain_state.data.periods[i];
+    if (p == period && !validators.data.data) continue;
+    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
+    highest_period = p > highest_period ? p : highest_period;
+  }
 
   c4_sync_validators_t result = {
       .deserialized   = validators.data.data && validators.data.len > 512 * 48,
@@ -609,19 +630,17 @@ static void clear_sync_state(chain_id_t chain_id) {
   storage_plugin_t storage_conf = {0};
   c4_get_storage_config(&storage_conf);
 
-  // Delete all sync states for this chain
+  // Delete chain state first, so it never refers to a deleted file
   c4_chain_state_t chain_state = c4_get_chain_state(chain_id);
+  char             name[100];
+  sbprintf(name, "states_%l", (uint64_t) chain_id);
+  storage_conf.del(name);
+
+  // Delete all sync states for this chain
   for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
-    uint32_t p = chain_state.data.periods[i];
-    char     name[100];
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, p);
+    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, chain_state.data.periods[i]);
     storage_conf.del(name);
   }
-
-  // Delete chain state
-  char name[100];
-  sbprintf(name, "states_%l", (uint64_t) chain_id);
-  storage_conf.del(name);
 }
 
 #ifdef USE_CHECKPOINTZ
@@ -815,12 +834,12 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
  * ### Our Pragmatic Solution
  * When storing period N+1, we also store SHA256(period N's keys) as previous_pubkeys_hash.
  *
- * If signature verification fails with period N+1's keys:
+ * If we need the keys of period N, but only have period N+1:
  * 1. Check if we have period N+1 cached (highest_period == period + 1)
- * 2. Fetch the light_client_update for period N
- * 3. Extract nextSyncCommittee (which represents period N+1's keys)
- * 4. Hash these keys and compare against the stored previous_pubkeys_hash
- * 5. If match: use the keys from step 3 for verification
+ * 2. Fetch the light_client_update for period N-1
+ * 3. Extract nextSyncCommittee (which represents period N's keys)
+ * 4. Hash these keys and compare against the previous_pubkeys_hash stored with period N+1
+ * 5. If match: use the keys from step 3 for verification, otherwise we use the normal sync.
  *
  * This avoids needing explicit proofs about finality timing while maintaining security
  * through cryptographic verification against a trusted hash.
@@ -835,78 +854,63 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
   if (sync_state->highest_period != period + 1)
     return C4_SUCCESS; // Not applicable - this is not an error, just means edge case doesn't apply
 
-  // Verify we have an anchor point (either lowest period or the next period)
-  if (sync_state->lowest_period == 0 || sync_state->lowest_period > period)
-    THROW_ERROR("Failed to get previous validators, because there is no anchor like the following period.");
-
   // Step 1: Retrieve period N+1 from cache to get its previous_pubkeys_hash
+  bytes32_t            no_prev         = {0}; // Zero hash for the keys we're about to fetch (they have no predecessor in our use)
   c4_sync_validators_t next_sync_state = get_validators_from_cache(ctx, period + 1);
-  if (next_sync_state.validators.data == NULL)
-    THROW_ERROR("Failed to get previous validators, because there is no anchor like the following period.");
-
-  // Step 2: Extract the stored hash of period N's keys from period N+1's metadata
-  bytes32_t previous_hash = {0}; // This is SHA256(period N's validator keys)
-  bytes32_t no_prev       = {0}; // Zero hash for the keys we're about to fetch (they have no predecessor in our use)
-  memcpy(previous_hash, next_sync_state.previous_pubkeys_hash, 32);
+  bool                 has_hash        = next_sync_state.validators.data && !bytes_all_zero(bytes(next_sync_state.previous_pubkeys_hash, 32));
 #ifndef C4_STATIC_MEMORY
   // Free next_sync_state validators as we only needed the previous_pubkeys_hash
   safe_free(next_sync_state.validators.data);
-  safe_free(sync_state->validators.data);
 #endif
-
-  // Step 3: Fetch the light_client_update for period N from Beacon API
-  bytes_t   light_client_update = {0};
-  bytes32_t computed_root       = {0};
-  if (req_client_update(&ctx->state, period, 1, ctx->chain_id, &light_client_update)) {
-    // Parse the SSZ-encoded update
-    fork_id_t        fork              = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update);
-    const ssz_def_t* client_update_def = eth_get_light_client_update(fork);
-
-    if (!client_update_def || light_client_update.len < UPDATE_PREFIX_SIZE)
-      THROW_ERROR("Invalid light client update format in edge case sync");
-
-    // Navigate to the first update in the list
-    uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
-      THROW_ERROR("Invalid offset in light client update list");
-
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
-    bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
-    ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
-
-    // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
-    ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
-    if (ssz_is_error(next_sync_committee))
-      THROW_ERROR("Failed to extract nextSyncCommittee from light client update");
-
-    // Step 5: Compute the hash of these keys (optionally deserialize for efficiency)
-#ifdef BLS_DESERIALIZE
-    bytes_t b = blst_deserialize_p1_affine(ssz_get(&next_sync_committee, "pubkeys").bytes.data, 512, NULL);
+  if (!has_hash) return C4_SUCCESS; // we don't know the hash, so we can only use the normal sync
+
+  // Step 2: Fetch the light_client_update for period N-1 from Beacon API
+  bytes_t light_client_update = {0};
+  if (!req_client_update(&ctx->state, period - 1, 1, ctx->chain_id, &light_client_update)) return ctx->state.error ? C4_ERROR : C4_PENDING;
+
+  // Step 3: Extract nextSyncCommittee from the update (this is period N's committee in period N-1's update)
+  uint64_t pos    = 0;
+  uint32_t idx    = 0;
+  ssz_ob_t update = {0};
+  if (!c4_next_light_client_update(ctx, light_client_update, &pos, &idx, &update)) return C4_ERROR;
+  if (!update.def) return C4_SUCCESS;
+  ssz_ob_t next_sync_committee = ssz_get(&update, "nextSyncCommittee");
+  bytes_t  pubkeys             = ssz_get(&next_sync_committee, "pubkeys").bytes;
+
+  // Step 4: Compute the hash of these keys (optionally deserialize for efficiency)
+  bytes32_t computed_root = {0};
+#if defined(BLS_DESERIALIZE) && defined(C4_STATIC_MEMORY)
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, sync_buffer);
+#elif defined(BLS_DESERIALIZE)
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, NULL);
+#elif defined(C4_STATIC_MEMORY)
+  bytes_t b = bytes(sync_buffer, 512 * 48);
+  memcpy(sync_buffer, pubkeys.data, 512 * 48);
 #else
-    bytes_t b = bytes_dup(ssz_get(&next_sync_committee, "pubkeys").bytes);
+  bytes_t b = bytes_dup(pubkeys);
 #endif
-    sha256(b, computed_root);
-
-    // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
-    // This proves the keys we fetched are indeed period N's keys
-    bool valid = memcmp(previous_hash, computed_root, 32) == 0;
-    if (valid)
-      sync_state->validators = b; // Success! Use these keys for verification
-    else {
-      safe_free(b.data);
-      THROW_ERROR("Sync committee root mismatch in period transition edge case");
-    }
+  if (!b.data) return C4_SUCCESS;
+  sha256(b, computed_root);
 
-    // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
-    if (!c4_set_sync_period(period, ssz_get(&next_sync_committee, "pubkeys").bytes, ctx->chain_id, no_prev)) {
-      safe_free(b.data);
-      THROW_ERROR("Failed to store sync committee for period transition");
-    }
+  // Step 5: Verify computed hash matches the stored previous_pubkeys_hash
+  // This proves the keys we fetched are indeed period N's keys
+  if (memcmp(next_sync_state.previous_pubkeys_hash, computed_root, 32) != 0) {
+#ifndef C4_STATIC_MEMORY
+    safe_free(b.data);
+#endif
+    return C4_SUCCESS; // not the keys we are looking for
+  }
 
-    return C4_SUCCESS;
+  // Step 6: Store period N's keys for future use (with no previous hash since we're using fallback)
+  if (!c4_set_sync_period(period, pubkeys, ctx->chain_id, no_prev)) {
+#ifndef C4_STATIC_MEMORY
+    safe_free(b.data);
+#endif
+    THROW_ERROR("Failed to store sync committee for period transition");
   }
-  else
-    return ctx->state.error ? C4_ERROR : C4_PENDING;
+  sync_state->validators   = b; // Success! Use these keys for verification
+  sync_state->deserialized = b.len > 512 * 48;
+  return C4_SUCCESS;
 }
 
 /**
@@ -930,9 +934,14 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 1: No cached periods exist - initialize from trusted checkpoint
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
+      if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_PERIODS) {
+        // the only period we have is incomplete, so we need to start with the checkpoint again
+        clear_sync_state(ctx->chain_id);
+        THROW_ERROR("The stored sync committee is incomplete, the sync state has been reset");
+      }
       TRY_ASYNC(init_sync_state(ctx));
       // Recursively call to retrieve the period after initialization
-      return c4_get_validators(ctx, period, target_state, NULL);
+      return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
 
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
@@ -942,6 +951,8 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Check if edge case fallback succeeded
     if (sync_state.validators.data) {
       *target_state = sync_state;
+      if (pubkey_hash)
+        sha256(sync_state.validators, pubkey_hash);
       return C4_SUCCESS;
     }
 
-- 
2.43.0


From 5bcfa43dd6bf3e6d907a6ca39a704fb14b6aae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 16/68] fix: weak subjectivity: confirm the checkpoint before
 any update is stored and for prover supplied updates

---
 src/chains/eth/verifier/sync_committee.c      |  5 +
 .../eth/verifier/sync_committee_state.c       | 99 +++++++++----------
 2 files changed, 49 insertions(+), 55 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 7715a58..2ee097f 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -187,6 +187,11 @@ static bool update_from_lc_sync_data(verify_ctx_t* ctx) {
 
   // run all light client updates
   uint32_t updates_len = ssz_len(updates);
+#ifdef USE_CHECKPOINTZ
+  // if they exceed the weak subjectivity period, we can not simply trust them. The updates will be fetched and checked against a checkpoint when we need them.
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (spec && (((uint64_t) updates_len) << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs) updates_len = 0;
+#endif
   for (uint32_t i = 0; i < updates_len; i++) {
     ssz_ob_t update = ssz_union(ssz_at(updates, i));
     if (!update_light_client_update(ctx, &update)) return false;
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index c6dc35c..9077cd7 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -645,42 +645,27 @@ static void clear_sync_state(chain_id_t chain_id) {
 
 #ifdef USE_CHECKPOINTZ
 /**
- * Find the most recent finalized checkpoint from verified light client updates.
- * Iterates through all cached light_client/updates requests to find the highest finalized slot.
+ * Find the most recent finalized checkpoint in the light client updates.
  * Used for weak subjectivity validation when syncing across large time gaps.
  *
- * @param ctx Verification context with cached requests
+ * @param ctx Verification context
+ * @param light_client_updates the light client updates
  * @param checkpoint_root Output parameter for the finalized checkpoint root
  * @return Slot number of the last finalized checkpoint, or 0 if not found
  */
-static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes32_t checkpoint_root) {
+static uint64_t find_last_finality_checkpoint(verify_ctx_t* ctx, bytes_t light_client_updates, bytes32_t checkpoint_root) {
   ssz_ob_t finalized_header = {0};
+  ssz_ob_t update           = {0};
   uint64_t finalized_slot   = 0;
-  for (data_request_t* req = ctx->state.requests; req; req = req->next) {
-    if (req->type == C4_DATA_TYPE_BEACON_API && strncmp(req->url, "eth/v1/beacon/light_client/updates", 34) == 0 && req->response.data && req->response.len > 0 && req->encoding == C4_DATA_ENCODING_SSZ) {
-      bytes_t  client_updates = req->response;
-      uint64_t length         = 0;
-      for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-        uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-        uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-        length                      = uint64_from_le(client_updates.data + pos);
-
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
-        bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
-        fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
-        const ssz_def_t* client_update_def   = eth_get_light_client_update(fork);
-        if (!client_update_def) break;
-
-        ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
-        ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
-        ssz_ob_t header    = ssz_get(&finalized, "beacon");
-        uint64_t slot      = ssz_get_uint64(&header, "slot");
-        if (slot > finalized_slot) {
-          finalized_slot   = slot;
-          finalized_header = header;
-        }
-      }
+  uint64_t pos              = 0;
+  uint32_t idx              = 0;
+  while (c4_next_light_client_update(ctx, light_client_updates, &pos, &idx, &update) && update.def) {
+    ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
+    ssz_ob_t header    = ssz_get(&finalized, "beacon");
+    uint64_t slot      = ssz_get_uint64(&header, "slot");
+    if (slot > finalized_slot) {
+      finalized_slot   = slot;
+      finalized_header = header;
     }
   }
   if (finalized_slot == 0) return 0;
@@ -688,6 +673,14 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
   return finalized_slot;
 }
 
+// true if the gap between the period we start the sync with and the target is bigger than the weak subjectivity period.
+static bool exceeds_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec || target_period <= sync_state->lowest_period) return false; // No gap, no need to check
+  uint64_t period_diff = target_period - sync_state->lowest_period;
+  return (period_diff << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
+}
+
 /**
  * Weak Subjectivity Period (WSP) Validation
  *
@@ -704,8 +697,8 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  *
  * ## Implementation
  *
- * When a sync gap exceeds the WSP, this function:
- * 1. Finds the last verified finalized checkpoint from cached light client updates
+ * When a sync gap exceeds the WSP, this function is called before any of the light client updates is used and:
+ * 1. Finds the last finalized checkpoint in the light client updates (which will be verified when handling the updates)
  * 2. Queries checkpointz (external beacon node) for the block root at that slot
  * 3. Verifies that both roots match, confirming we're on the canonical chain
  *
@@ -725,24 +718,15 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * @param ctx Verification context
  * @param sync_state Current sync committee state
  * @param target_period Target period to sync to
+ * @param light_client_updates the light client updates we will use to sync
  * @return C4_SUCCESS if validation passes, C4_ERROR if checkpoint mismatch, C4_PENDING if waiting for checkpointz response
  */
-static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
-  const chain_spec_t* spec                                   = c4_eth_get_chain_spec(ctx->chain_id);
-  bytes32_t           last_verified_finality_checkpoint_root = {0};
-  if (!spec) return C4_SUCCESS; // Cannot validate without spec
-
-  // Calculate period difference
-  if (target_period <= sync_state->highest_period) return C4_SUCCESS; // No gap, no need to check
-
-  uint32_t period_diff = target_period - sync_state->highest_period;
-  uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;
-
-  // Check if we exceed weak subjectivity period
-  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
+static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period, bytes_t light_client_updates) {
+  bytes32_t last_finality_checkpoint_root = {0};
+  if (!exceeds_weak_subjectivity(ctx, sync_state, target_period)) return C4_SUCCESS; // Within WSP
 
-  // first find the last finality checkpoint we have verifier during a light_client_update.
-  uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
+  // first find the last finality checkpoint in the light_client_updates.
+  uint64_t finality_slot = find_last_finality_checkpoint(ctx, light_client_updates, last_finality_checkpoint_root);
   if (!finality_slot) {
     clear_sync_state(ctx->chain_id);
     return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
@@ -795,7 +779,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
     buffer_t  root_buf         = {.data = bytes(checkpointz_root, 32), .allocated = -32};
     json_as_bytes(root, &root_buf);
 
-    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
+    if (memcmp(checkpointz_root, last_finality_checkpoint_root, 32) != 0) {
       clear_sync_state(ctx->chain_id);
       return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
     }
@@ -959,18 +943,23 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
-      if (!c4_handle_client_updates(ctx, light_client_updates))
-        return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+#ifdef USE_CHECKPOINTZ
+      // Check weak subjectivity period BEFORE using (and storing) any of the updates
+      // If this fails, clear_sync_state() is called inside to force re-initialization
+      TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period, light_client_updates));
+#endif
+      if (!c4_handle_client_updates(ctx, light_client_updates)) {
+        if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
+#ifdef USE_CHECKPOINTZ
+        // the checkpoint was not part of a verified update, so the updates we may already have stored are not confirmed.
+        if (exceeds_weak_subjectivity(ctx, &sync_state, period)) clear_sync_state(ctx->chain_id);
+#endif
+        return c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+      }
     }
     else
       return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Check weak subjectivity period BEFORE loading new sync state
-    // If this fails, clear_sync_state() is called inside to force re-initialization
-#ifdef USE_CHECKPOINTZ
-    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
-#endif
-
     // Load new sync state after successful WSP check
     sync_state = get_validators_from_cache(ctx, period);
     if (sync_state.validators.data == NULL) return c4_state_add_error(&ctx->state, "Failed to get validators");
-- 
2.43.0


From bc13dfa61486978316c86a6dbf1d36a605b96387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 17/68] fix: historic proofs: the gindex has to be the one of
 the proven slot and the summary the one of the blocks period

---
 src/chains/eth/prover/historic_proof.c  |  2 +-
 src/chains/eth/verifier/beacon_header.c | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..c490779 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -168,7 +168,7 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   if (chain == NULL) THROW_ERROR("unsupported chain id!");
   if (!ctx->client_state.len || !(ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)) return C4_SUCCESS; // no client state means we can't check for historic proofs and assume we simply use the synccommittee for this block.
   uint64_t state_period = block_proof->sync.oldest_period;                                     // this is the oldest period we have in the client state
-  uint64_t block_period = block_proof->sync.required_period;                                   // the period of the target block
+  uint64_t block_period = slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits); // the period of the target block
   if (!state_period) return C4_SUCCESS;                                                        // the client does not have a state yet, so he might as well get the head and verify the block.
   if (block_period >= state_period) return C4_SUCCESS;                                         // the target block is within the current range of the client
 
diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index 0bf406f..79cfff4 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -114,13 +114,29 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the gindex of the root of a block within the historical summaries of a state. 0 if the slot can not be part of it.
+static gindex_t historic_gindex(const chain_spec_t* chain, uint64_t slot, uint64_t state_slot) {
+  uint32_t period_bits   = chain->slots_per_epoch_bits + chain->epochs_per_period_bits;
+  uint64_t offset_period = chain->fork_epochs[C4_FORK_BELLATRIX] >> chain->epochs_per_period_bits; // the summaries start with the capella fork.
+  uint64_t period        = slot >> period_bits;
+  if (period < offset_period || period >= (state_slot >> period_bits)) return 0;
+  gindex_t summaries = (c4_chain_fork_id(chain->chain_id, epoch_for_slot(state_slot, chain)) >= C4_FORK_ELECTRA ? 64 : 32) + 27; // the summaries have the index 27 in the state.
+  gindex_t summary   = ((2ULL << 24) + (period - offset_period)) * 2;                                                            // the block_summary_root of the period
+  return ssz_add_gindex(ssz_add_gindex(summaries, summary), 8192 + (slot % 8192));
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
 
+  const chain_spec_t* chain  = c4_eth_get_chain_spec(ctx->chain_id);
+  gindex_t            gindex = chain ? historic_gindex(chain, ssz_get_uint64(&header, "slot"), ssz_get_uint64(&signed_header, "slot")) : 0;
+  if (!gindex || gindex != ssz_get_uint64(&historic_proof, "gindex"))
+    THROW_ERROR("invalid gindex for historic proof!");
+
   ssz_hash_tree_root(header, block_root);
-  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
+  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, gindex, state_root);
 
   if (memcmp(state_root, ssz_get(&signed_header, "stateRoot").bytes.data, 32))
     THROW_ERROR("invalid state root for historic proof!");
-- 
2.43.0


From a3cbab263aac74e09f13f20cd68449aebb6bf87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:09 +0000
Subject: [PATCH 18/68] fix: ssz: a container needs all of its fixed part and a
 bit list at least one byte

---
 src/util/ssz.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..d25120e 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -170,14 +170,16 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Bit vector length must match definition exactly
       RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list length can be up to max length, but there is always at least the delimiting bit
+      RETURN_VALID_IF(ob.bytes.len && ob.bytes.len <= (ob.def->def.vector.len + 8) >> 3, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_length = 0; // all fixed fields and the offsets of the dynamic fields
+      for (int i = 0; i < ob.def->def.container.len; i++) fixed_length += ssz_fixed_length(ob.def->def.container.elements + i);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_length) : (ob.bytes.len != fixed_length)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
-- 
2.43.0


From 2426e100ca9b2722943263422617111dd59e4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 19/68] fix: a proof without a successful verification is never
 reported as success

---
 src/verifier/verify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..9f25824 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -88,6 +88,10 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
 
+  // a verifier may give up without reporting a reason, which must never be taken for a verified result
+  if (!ctx->success && !ctx->state.error && !c4_state_get_pending_request(&ctx->state))
+    ctx->state.error = strdup("the proof could not be verified");
+
   return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
 }
 
-- 
2.43.0


From f05680f15761c17318051695b4a990351e21ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:06 +0000
Subject: [PATCH 20/68] fix: light client updates which are not consecutive
 must not end in an endless recursion

---
 src/chains/eth/verifier/sync_committee_state.c | 7 ++++++-
 src/verifier/verify.h                          | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 9077cd7..a3cfb62 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -941,6 +941,8 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     }
 
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
+    // While handling updates, the committee signing the next one must already be known, fetching the same updates again would never end.
+    if (ctx->flags & VERIFY_FLAG_SYNCING) THROW_ERROR("the light client updates are not consecutive");
     bytes_t light_client_updates = {0};
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
 #ifdef USE_CHECKPOINTZ
@@ -948,7 +950,10 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
       // If this fails, clear_sync_state() is called inside to force re-initialization
       TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period, light_client_updates));
 #endif
-      if (!c4_handle_client_updates(ctx, light_client_updates)) {
+      ctx->flags |= VERIFY_FLAG_SYNCING;
+      bool handled = c4_handle_client_updates(ctx, light_client_updates);
+      ctx->flags &= ~VERIFY_FLAG_SYNCING;
+      if (!handled) {
         if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
 #ifdef USE_CHECKPOINTZ
         // the checkpoint was not part of a verified update, so the updates we may already have stored are not confirmed.
diff --git a/src/verifier/verify.h b/src/verifier/verify.h
index 9d5412f..78066a7 100644
--- a/src/verifier/verify.h
+++ b/src/verifier/verify.h
@@ -80,6 +80,7 @@ typedef uint32_t verify_flags_t;
  */
 typedef enum {
   VERIFY_FLAG_FREE_DATA = 1 << 0, // if set, the data section will be freed after verification. This flag is set when the verifier generates the actual result data from the proof and needs cleanup afterwards.
+  VERIFY_FLAG_SYNCING   = 1 << 1, // set while light client updates fetched for a missing period are applied, so they are not fetched again while verifying them.
 } verify_flag_t;
 
 /**
-- 
2.43.0


From d002e13572664227dc6a9cc072b8ed96b5ad3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:07 +0000
Subject: [PATCH 21/68] fix: logs proofs: the required period of the sync data
 is the one of the highest block

---
 src/chains/eth/prover/proof_logs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index 09d2bf1..f4d7b6d 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot << (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = highest_block->beacon_block.slot >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
-- 
2.43.0


From 94bb6da53b0fb661d2222037d374a9bdc02c7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 22/68] fix: prover: never read light client updates beyond the
 response

---
 src/chains/eth/prover/historic_proof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index c490779..b412a53 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -309,7 +309,7 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+    if (length < SSZ_OFFSET_SIZE || length > client_updates.len || pos + SSZ_LENGTH_SIZE + length > client_updates.len) break;
 
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
-- 
2.43.0


From d2cd433ca4cfc4a814c57206530be89dd1fa5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 23/68] fix: sync state: a period with missing or incomplete
 keys is synced again and a storage which keeps nothing ends with an error

---
 .../eth/verifier/sync_committee_state.c       | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index a3cfb62..3c24be6 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -400,6 +400,20 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states
   return periods;
 }
 
+/**
+ * Remove a period from the list of the periods in the chain state.
+ *
+ * @param state Chain state containing period information
+ * @param period the period to remove
+ */
+static void remove_period(c4_chain_state_t* state, uint32_t period) {
+  uint32_t periods = period_count(state), count = 0;
+  for (uint32_t i = 0; i < periods; i++) {
+    if (state->data.periods[i] != period) state->data.periods[count++] = state->data.periods[i];
+  }
+  while (count < periods) state->data.periods[count++] = 0;
+}
+
 /**
  * Store a sync committee period in persistent storage.
  * Stores validators and previous pubkeys hash.
@@ -499,6 +513,7 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
       if (c4_req_checkpointz_status(state, ctx->chain_id, &checkpoint_epoch, checkpoint_root)) {
         // Set the checkpoint as trusted blockhash
         c4_eth_set_trusted_checkpoint(ctx->chain_id, checkpoint_root);
+        if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_EMPTY) THROW_ERROR("The checkpoint could not be stored");
         // Recursively call init_sync_state to process the bootstrap with the new trusted checkpoint
         return init_sync_state(ctx);
       }
@@ -601,10 +616,16 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
     validators.data = NULL_BYTES; // just to make sure we mark it as not found, even if we are using static memory
   }
 
-  // find the closest and the highest period, but ignore the period itself if it is listed, but the keys are missing or incomplete.
+  // if the period is listed, but the keys are missing or incomplete (like after a crash), it can not be used and must be synced again.
+  if (found && !validators.data.data) {
+    remove_period(&chain_state, period);
+    c4_set_chain_state(ctx->chain_id, &chain_state);
+    if (storage_conf.del) storage_conf.del(name);
+  }
+
+  // find the closest and the highest period
   for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
-    uint32_t p = chain_state.data.periods[i];
-    if (p == period && !validators.data.data) continue;
+    uint32_t p     = chain_state.data.periods[i];
     lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
     highest_period = p > highest_period ? p : highest_period;
   }
@@ -918,12 +939,13 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 1: No cached periods exist - initialize from trusted checkpoint
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
-      if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_PERIODS) {
-        // the only period we have is incomplete, so we need to start with the checkpoint again
-        clear_sync_state(ctx->chain_id);
-        THROW_ERROR("The stored sync committee is incomplete, the sync state has been reset");
-      }
       TRY_ASYNC(init_sync_state(ctx));
+      // if the storage did not keep the state, trying it again would never end.
+      c4_sync_validators_t stored = get_validators_from_cache(ctx, period);
+      if (!stored.validators.data && !stored.lowest_period && !stored.highest_period) THROW_ERROR("The sync state could not be stored");
+#ifndef C4_STATIC_MEMORY
+      safe_free(stored.validators.data);
+#endif
       // Recursively call to retrieve the period after initialization
       return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
-- 
2.43.0


From 7ceb8147cee9c61d46c9aed3c6510bdde9881107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 24/68] fix: responses are null terminated and json_as_string
 keeps within fixed buffers

---
 bindings/colibri.c | 5 ++++-
 src/util/json.c    | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..43513ea 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -144,7 +144,10 @@ void c4_free_prover_ctx(prover_t* ctx) {
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
   data_request_t* ctx      = (data_request_t*) req_ptr;
-  ctx->response            = bytes_dup(bytes(data.data, data.len));
+  uint8_t*        response = safe_malloc((size_t) data.len + 1); // json responses are parsed as a null terminated string
+  if (data.len) memcpy(response, data.data, data.len);
+  response[data.len]       = 0;
+  ctx->response            = bytes(response, data.len);
   ctx->response_node_index = node_index;
 }
 
diff --git a/src/util/json.c b/src/util/json.c
index e3fde75..a36bac9 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -338,14 +338,16 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
   buffer_grow(buffer, value.len + 1);
+  bytes_t content = value.type == JSON_TYPE_STRING ? bytes((uint8_t*) value.start + 1, value.len - 2) : bytes((uint8_t*) value.start, value.len);
+  if (buffer->allocated < 0 && content.len >= (uint32_t) (0 - buffer->allocated)) content.len = (uint32_t) (0 - buffer->allocated) - 1; // a fixed buffer needs room for the terminator
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, content);
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, content);
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
-- 
2.43.0


From 1df8b8d7be07ca926dabc689a8b72c7351ca5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:31 +0000
Subject: [PATCH 25/68] fix: args with leading whitespace are freed with the
 pointer they were allocated with

---
 bindings/colibri.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 43513ea..0c856ca 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -163,10 +163,20 @@ bytes_t c4_prover_get_proof(prover_t* prover) {
   return ctx->proof;
 }
 
+// the copy starts exactly where the json starts, so it can be freed by its start
+static json_t parse_args(char* args) {
+  json_t json = json_parse(args);
+  char*  copy = safe_malloc(json.len + 1);
+  if (json.len) memcpy(copy, json.start, json.len);
+  copy[json.len] = 0;
+  json.start     = copy;
+  return json;
+}
+
 void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint) {
   c4_verify_ctx_t* ctx = calloc(1, sizeof(c4_verify_ctx_t));
   ctx->proof           = bytes_dup(proof);
-  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? json_parse(strdup(args)) : ((json_t) {0}), (chain_id_t) chain_id);
+  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? parse_args(args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
     hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
-- 
2.43.0


From 81bbab2e9339e0fb2b11cc92ea075d15c5fb38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:31 +0000
Subject: [PATCH 26/68] fix: eth_getLogs filters of any length are passed on
 completely

---
 src/chains/eth/prover/eth_req.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 8224b07..d5b5959 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -75,10 +75,11 @@ c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receip
 }
 
 c4_status_t eth_get_logs(prover_ctx_t* ctx, json_t params, json_t* logs) {
-  uint8_t         tmp[1000];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0}; // the filter may have any number of addresses or topics
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req));
+  TRY_ASYNC_FINAL(
+      c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req),
+      buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*logs, "[" JSON_LOG_FIELDS "]", "Invalid results for Logs: ");
     req->validated = true;
-- 
2.43.0


From e6065dde3dd02ccda03b5947729c9ae61cec650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:31 +0000
Subject: [PATCH 27/68] fix: prover: incomplete historical summaries, blocks,
 zk proofs or odd block numbers end with an error

---
 src/chains/eth/prover/beacon.c            | 2 +-
 src/chains/eth/prover/historic_proof.c    | 6 ++++++
 src/chains/eth/prover/historic_proof_zk.c | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 7095205..0668ac4 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -43,7 +43,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   }
   else if (block.start[1] == '0' && block.start[2] == 'x') {
     json_as_bytes(block, &buffer);
-    if (block.len < 68) memmove(key + 1, key, buffer.data.len);
+    if (block.len < 68) memmove(key + 1, key, buffer.data.len > 31 ? 31 : buffer.data.len);
   }
   else
     memcpy(key + 1, block.start, block.len > 31 ? 31 : block.len);
diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index b412a53..422ab38 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -198,6 +198,12 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
     buffer_append(&list_data, json_get_bytes(entry, "state_summary_root", &buf));
   }
 
+  // the blocks of the period must be complete and its summary must be part of the response
+  if (blocks.len != 8192 * 32 || list_data.data.len % 64 || summary_idx >= list_data.data.len / 64) {
+    safe_free(list_data.data.data);
+    THROW_ERROR("Invalid historical summaries or blocks!");
+  }
+
   // create the proofs
   ssz_ob_t summaries_ob           = {.bytes = list_data.data, .def = &SUMMARIES};
   bytes_t  block_idx_proof        = ssz_create_proof(blocks_ob, blocks_root, block_gidx);
diff --git a/src/chains/eth/prover/historic_proof_zk.c b/src/chains/eth/prover/historic_proof_zk.c
index e7fca9f..7391fcb 100644
--- a/src/chains/eth/prover/historic_proof_zk.c
+++ b/src/chains/eth/prover/historic_proof_zk.c
@@ -59,6 +59,7 @@ c4_status_t c4_fetch_zk_proof_data(prover_ctx_t* ctx, zk_proof_data_t* zk_proof,
       buffer_append(&signatures, sig_data);
     }
   }
+  if (status == C4_SUCCESS && !ssz_is_valid(zk_proof->sync_proof, true, &ctx->state)) return C4_ERROR;
   if (status == C4_SUCCESS)
     zk_proof->signatures = signatures.data.len ? bytes_dup(signatures.data) : NULL_BYTES;
 
-- 
2.43.0


From e5fdc3d211ebb6dd846179f7294b43ac2cd6610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:31 +0000
Subject: [PATCH 28/68] fix: colibri_decodeTransaction reports an invalid
 transaction as error

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From a719982347fa2791728ad2434d3b505a14f0a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 29/68] fix: prover: a parentBeaconBlockRoot which is not hex
 ends with an error

---
 src/chains/eth/prover/beacon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 0668ac4..be1b910 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -305,8 +305,8 @@ static c4_status_t eth_get_block(prover_ctx_t* ctx, json_t block, bool full_tx,
 static c4_status_t get_beacon_header_from_eth_block(prover_ctx_t* ctx, json_t eth_block, json_t* header, bytes32_t root, bytes32_t parent_root) {
   buffer_t buffer = {.allocated = -32, .data = {.data = parent_root, .len = 0}};
   json_t   p_hash = json_get(eth_block, "parentBeaconBlockRoot");
-  if (p_hash.len != 68) THROW_ERROR("The Block is not a Beacon Block!");
-  return get_beacon_header_by_parent_hash(ctx, json_as_bytes(p_hash, &buffer).data, header, root);
+  if (p_hash.len != 68 || json_as_bytes(p_hash, &buffer).len != 32) THROW_ERROR("The Block is not a Beacon Block!");
+  return get_beacon_header_by_parent_hash(ctx, parent_root, header, root);
 }
 
 static inline c4_status_t eth_get_by_number(prover_ctx_t* ctx, uint64_t block_number, bytes32_t sig_root, bytes32_t data_root) {
-- 
2.43.0


From b8960f45c410536d2f74b13f53f12e370b24927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:22 +0000
Subject: [PATCH 30/68] fix: the offset of a light client update is checked
 without overflow

---
 src/chains/eth/verifier/sync_committee.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 2ee097f..ac42d7a 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -260,7 +260,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if ((uint64_t) offset + 8 > data.len) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
-- 
2.43.0


From 18455d95b4c7d7f874f48430cfef8d96cc7ba1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:22 +0000
Subject: [PATCH 31/68] fix: the info of long requests is always terminated

---
 src/util/logger.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/logger.c b/src/util/logger.c
index 49b811d..75140df 100644
--- a/src/util/logger.c
+++ b/src/util/logger.c
@@ -40,6 +40,7 @@ char* c4_req_info_short(data_request_type_t type, char* path, bytes_t payload) {
     if (method.type == JSON_TYPE_STRING)
       bprintf(&buf, " %j", method);
   }
+  req_info_buf[sizeof(req_info_buf) - 1] = 0; // long requests are truncated
   return (char*) req_info_buf;
 }
 
@@ -65,6 +66,7 @@ char* c4_req_info(data_request_type_t type, char* path, bytes_t payload) {
     else
       bprintf(&buf, GRAY("%r"), payload);
   }
+  req_info_buf[sizeof(req_info_buf) - 1] = 0; // long requests are truncated
   return (char*) req_info_buf;
 }
 
-- 
2.43.0


From 9752a7073faabfca10101cf6dec8b748d591bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:13 +0000
Subject: [PATCH 32/68] fix: a block hash with leading zeros is a valid block

---
 src/util/json_validate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..01db8df 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -172,6 +172,7 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
 static const char* check_block(json_t val, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected block number", error_prefix);
   if (strncmp("\"latest\"", val.start, 8) == 0 || strncmp("\"safe\"", val.start, 6) == 0 || strncmp("\"finalized\"", val.start, 11) == 0) return NULL;
+  if (val.len == 68) return check_hex(val, 32, false, error_prefix); // a block hash may start with zeros
   return check_hex(val, 0, true, error_prefix);
 }
 
-- 
2.43.0


From 3acdfb68029fb57884e7e810f089403c469c506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:40 +0000
Subject: [PATCH 33/68] fix: weak subjectivity: the age of the keys counts from
 the latest known period

---
 src/chains/eth/verifier/sync_committee_state.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 3c24be6..5d5680b 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -698,7 +698,8 @@ static uint64_t find_last_finality_checkpoint(verify_ctx_t* ctx, bytes_t light_c
 static bool exceeds_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
   const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
   if (!spec || target_period <= sync_state->lowest_period) return false; // No gap, no need to check
-  uint64_t period_diff = target_period - sync_state->lowest_period;
+  // if we already know a later period, the keys we start with are at least that old.
+  uint64_t period_diff = (target_period > sync_state->highest_period ? target_period : sync_state->highest_period) - sync_state->lowest_period;
   return (period_diff << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
 }
 
-- 
2.43.0


From 07790acd2414dcc0e62cfbd7e680289573b5a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:47 +0000
Subject: [PATCH 34/68] fix: block numbers and indexes of requests are not
 truncated

A block number above 2^64 (or a transaction index above 2^32) in a request was
taken for the number given by its lower bits, so the proof of another block or
transaction was accepted as the answer.
---
 src/chains/eth/verifier/verify_tx_proof.c | 4 ++--
 src/util/json.c                           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..71d7e2c 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -85,13 +85,13 @@ static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes
     bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
     if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     uint64_t req_block_num = json_as_uint64(json_at(ctx->args, 0));
     if (!req_block_num) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (req_block_num != ssz_get_uint64(&ctx->proof, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else
     RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
diff --git a/src/util/json.c b/src/util/json.c
index a36bac9..f8ad748 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -357,9 +357,11 @@ uint64_t json_as_uint64(json_t value) {
   uint8_t  tmp[20] = {0};
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
-    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
+    size_t skip = 3; // leading zeros do not count
+    while (skip + 17 < value.len && value.start[skip] == '0') skip++;
+    if (skip + 17 < value.len) return UINT64_MAX; // does not fit, so it must not be taken for a smaller number
+    int len = skip > 3 ? hex_to_bytes(value.start + skip, 16, bytes(tmp, 20)) : hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
     if (len == -1) return 0;
-    if (len > 8) return uint64_from_be(tmp + len - 8); // only the lower 64 bits
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
-- 
2.43.0


From 27372b70888ed8428321968fea035c61c8265a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:51 +0000
Subject: [PATCH 35/68] fix: server: requests arriving in more than one read
 are parsed completely

Url, method and headers are reported by llhttp in pieces if they cross a read, and the content-length is decremented
while the body arrives, so requests in more than one segment were truncated or rejected with 431.
The payload is terminated now, because the handlers parse it as string.
---
 src/server/http_server.c | 156 ++++++++++++++++++++++++---------------
 src/server/server.h      |   2 +
 2 files changed, 97 insertions(+), 61 deletions(-)

diff --git a/src/server/http_server.c b/src/server/http_server.c
index 7ddd06e..41dbe82 100644
--- a/src/server/http_server.c
+++ b/src/server/http_server.c
@@ -29,8 +29,10 @@ static void  on_close(uv_handle_t* handle);
 static void  on_write_complete(uv_write_t* req, int status);
 static int   on_url(llhttp_t* parser, const char* at, size_t length);
 static int   on_method(llhttp_t* parser, const char* at, size_t length);
+static int   on_method_complete(llhttp_t* parser);
 static int   on_header_field(llhttp_t* parser, const char* at, size_t length);
 static int   on_header_value(llhttp_t* parser, const char* at, size_t length);
+static int   on_header_value_complete(llhttp_t* parser);
 static int   on_headers_complete(llhttp_t* parser);
 static int   on_body(llhttp_t* parser, const char* at, size_t length);
 static int   on_message_complete(llhttp_t* parser);
@@ -78,6 +80,8 @@ static void reset_client_request_data(client_t* client) {
   client->request.payload_len = 0;
   // client->request.method is an enum, gets overwritten by parser.
   memset(client->current_header, 0, sizeof(client->current_header));
+  buffer_reset(&client->current_value);
+  client->content_length = 0;
 
   // Reset security tracking counters
   client->headers_size_received    = 0;
@@ -116,6 +120,7 @@ static void on_close(uv_handle_t* handle) {
   safe_free(client->b3_trace_id);
   safe_free(client->b3_span_id);
   safe_free(client->b3_parent_span_id);
+  buffer_free(&client->current_value);
   // Clear handle->data BEFORE freeing client to avoid use-after-free
   // (handle is part of the client structure, so accessing it after free is invalid)
   handle->data  = NULL;
@@ -128,27 +133,54 @@ void c4_http_server_on_close_callback(uv_handle_t* handle) {
   on_close(handle);
 }
 
+static bool is_word(bytes_t value, const char* word) {
+  return value.len == strlen(word) && strncasecmp((char*) value.data, word, value.len) == 0;
+}
+
+static bool starts_with(bytes_t value, const char* word) {
+  return value.len >= strlen(word) && strncasecmp((char*) value.data, word, strlen(word)) == 0;
+}
+
+// replaces the string of a header, since a header may be sent more than once
+static void set_string(char** dst, buffer_t* value) {
+  safe_free(*dst);
+  *dst = strndup(value->data.data ? (char*) value->data.data : "", value->data.len);
+}
+
+// llhttp reports url, method and headers in pieces if they arrive in more than one read, so all of them are collected.
 static int on_url(llhttp_t* parser, const char* at, size_t length) {
-  client_t* client     = (client_t*) parser->data;
-  client->request.path = strndup(at, length);
+  client_t* client  = (client_t*) parser->data;
+  size_t    old_len = client->request.path ? strlen(client->request.path) : 0;
+  if (old_len + length > MAX_HEADERS_SIZE) return HPE_USER;
+  client->request.path = (char*) safe_realloc(client->request.path, old_len + length + 1);
+  memcpy(client->request.path + old_len, at, length);
+  client->request.path[old_len + length] = '\0';
   return 0;
 }
 
 static int on_method(llhttp_t* parser, const char* at, size_t length) {
   client_t* client = (client_t*) parser->data;
+  buffer_append(&client->current_value, bytes(at, length));
+  return 0;
+}
+
+static int on_method_complete(llhttp_t* parser) {
+  client_t* client = (client_t*) parser->data;
+  bytes_t   method = client->current_value.data;
   // Default minimal trace level per request unless overridden by header
   client->trace_level = TRACE_LEVEL_MIN;
-  if (strncasecmp(at, "GET", length) == 0)
+  if (is_word(method, "GET"))
     client->request.method = C4_DATA_METHOD_GET;
-  else if (strncasecmp(at, "POST", length) == 0)
+  else if (is_word(method, "POST"))
     client->request.method = C4_DATA_METHOD_POST;
-  else if (strncasecmp(at, "PUT", length) == 0)
+  else if (is_word(method, "PUT"))
     client->request.method = C4_DATA_METHOD_PUT;
-  else if (strncasecmp(at, "DELETE", length) == 0)
+  else if (is_word(method, "DELETE"))
     client->request.method = C4_DATA_METHOD_DELETE;
   else
     return HPE_INVALID_METHOD;
 
+  buffer_reset(&client->current_value);
   return 0;
 }
 
@@ -163,9 +195,10 @@ static int on_header_field(llhttp_t* parser, const char* at, size_t length) {
     return HPE_USER;
   }
 
-  if (length > sizeof(client->current_header) - 1) return HPE_INVALID_HEADER_TOKEN;
-  strncpy(client->current_header, at, length);
-  client->current_header[length] = '\0';
+  size_t old_len = strlen(client->current_header);
+  if (old_len + length > sizeof(client->current_header) - 1) return HPE_INVALID_HEADER_TOKEN;
+  memcpy(client->current_header + old_len, at, length);
+  client->current_header[old_len + length] = '\0';
   return 0;
 }
 
@@ -181,53 +214,59 @@ static int on_header_value(llhttp_t* parser, const char* at, size_t length) {
   }
 
   // Also reject individual header values that are too large
-  if (length > MAX_SINGLE_HEADER_SIZE) {
+  if (client->current_value.data.len + length > MAX_SINGLE_HEADER_SIZE) {
     log_warn(YELLOW("SECURITY:") " Rejected request with oversized header value (%l bytes, max: %d) from client 0x%lx",
-             (uint64_t) length, MAX_SINGLE_HEADER_SIZE, (uint64_t) (uintptr_t) client);
+             (uint64_t) (client->current_value.data.len + length), MAX_SINGLE_HEADER_SIZE, (uint64_t) (uintptr_t) client);
     return HPE_USER;
   }
 
+  buffer_append(&client->current_value, bytes(at, length));
+  return 0;
+}
+
+static int on_header_value_complete(llhttp_t* parser) {
+  client_t* client = (client_t*) parser->data;
+  buffer_t* buffer = &client->current_value;
+  bytes_t   value  = buffer->data;
+
   if (strcasecmp(client->current_header, "Content-Type") == 0)
-    client->request.content_type = strndup(at, length);
+    set_string(&client->request.content_type, buffer);
   else if (strcasecmp(client->current_header, "Accept") == 0)
-    client->request.accept = strndup(at, length);
+    set_string(&client->request.accept, buffer);
 #ifdef HTTP_SERVER_GEO
   else if (strcasecmp(client->current_header, "Country-Code") == 0)
-    client->request.geo_country = strndup(at, length);
+    set_string(&client->request.geo_country, buffer);
   else if (strcasecmp(client->current_header, "City-Name") == 0)
-    client->request.geo_city = strndup(at, length);
+    set_string(&client->request.geo_city, buffer);
   else if (strcasecmp(client->current_header, "Latitude") == 0)
-    client->request.geo_latitude = strndup(at, length);
+    set_string(&client->request.geo_latitude, buffer);
   else if (strcasecmp(client->current_header, "Longitude") == 0)
-    client->request.geo_longitude = strndup(at, length);
+    set_string(&client->request.geo_longitude, buffer);
 #endif
-  else if (strcasecmp(client->current_header, "X-B3-TraceId") == 0) {
-    safe_free(client->b3_trace_id);
-    client->b3_trace_id = strndup(at, length);
-  }
-  else if (strcasecmp(client->current_header, "X-B3-SpanId") == 0) {
-    safe_free(client->b3_span_id);
-    client->b3_span_id = strndup(at, length);
-  }
-  else if (strcasecmp(client->current_header, "X-B3-ParentSpanId") == 0) {
-    safe_free(client->b3_parent_span_id);
-    client->b3_parent_span_id = strndup(at, length);
-  }
+  else if (strcasecmp(client->current_header, "X-B3-TraceId") == 0)
+    set_string(&client->b3_trace_id, buffer);
+  else if (strcasecmp(client->current_header, "X-B3-SpanId") == 0)
+    set_string(&client->b3_span_id, buffer);
+  else if (strcasecmp(client->current_header, "X-B3-ParentSpanId") == 0)
+    set_string(&client->b3_parent_span_id, buffer);
   else if (strcasecmp(client->current_header, "X-B3-Sampled") == 0) {
-    if (length > 0 && (at[0] == '1' || at[0] == 't' || at[0] == 'T' || at[0] == 'y' || at[0] == 'Y'))
+    if (value.len > 0 && strchr("1tTyY", value.data[0]))
       client->b3_sampled = 1;
-    else if (length > 0 && (at[0] == '0' || at[0] == 'f' || at[0] == 'F' || at[0] == 'n' || at[0] == 'N'))
+    else if (value.len > 0 && strchr("0fFnN", value.data[0]))
       client->b3_sampled = 0;
   }
   else if (strcasecmp(client->current_header, "X-C4-Trace-Level") == 0) {
     // Accept: none|min|debug (case-insensitive)
-    if (length >= 4 && strncasecmp(at, "none", 4) == 0)
+    if (starts_with(value, "none"))
       client->trace_level = TRACE_LEVEL_NONE;
-    else if (length >= 3 && strncasecmp(at, "min", 3) == 0)
+    else if (starts_with(value, "min"))
       client->trace_level = TRACE_LEVEL_MIN;
-    else if (length >= 5 && strncasecmp(at, "debug", 5) == 0)
+    else if (starts_with(value, "debug"))
       client->trace_level = TRACE_LEVEL_DEBUG;
   }
+
+  client->current_header[0] = '\0';
+  buffer_reset(buffer);
   return 0;
 }
 
@@ -242,6 +281,8 @@ static int on_headers_complete(llhttp_t* parser) {
     return HPE_USER; // Custom error to trigger rejection
   }
 
+  // llhttp decrements content_length while receiving the body, so we need to remember it
+  client->content_length = parser->content_length == ULLONG_MAX ? 0 : parser->content_length;
   return 0;
 }
 
@@ -252,12 +293,11 @@ static int on_body(llhttp_t* parser, const char* at, size_t length) {
   size_t new_total = client->body_size_received + length;
 
   // Validate that we don't receive more bytes than Content-Length specifies
-  // Only check if Content-Length was explicitly provided (not ULLONG_MAX and not 0)
-  // Note: parser->content_length is 0 when no Content-Length header is present
-  if (parser->content_length != ULLONG_MAX && parser->content_length > 0) {
-    if (new_total > parser->content_length) {
+  // Only check if Content-Length was explicitly provided (it is 0 if not)
+  if (client->content_length > 0) {
+    if (new_total > client->content_length) {
       log_warn(YELLOW("SECURITY:") " Request smuggling attempt detected - body size %l exceeds Content-Length %l from client 0x%lx",
-               (uint64_t) new_total, (uint64_t) parser->content_length, (uint64_t) (uintptr_t) client);
+               (uint64_t) new_total, client->content_length, (uint64_t) (uintptr_t) client);
       return HPE_USER;
     }
   }
@@ -273,13 +313,10 @@ static int on_body(llhttp_t* parser, const char* at, size_t length) {
   // llhttp may call on_body multiple times (chunked encoding or segmented reads).
   // Accumulate the full payload so handlers see a complete request body.
   if (length > 0) {
-    uint8_t* new_payload = (uint8_t*) safe_malloc(new_total);
-    if (client->request.payload && client->request.payload_len > 0) {
-      memcpy(new_payload, client->request.payload, client->request.payload_len);
-      safe_free(client->request.payload);
-    }
-    memcpy(new_payload + (new_total - length), at, length);
-    client->request.payload     = new_payload;
+    // the payload is always terminated, because the handlers parse it as JSON-string
+    client->request.payload = (uint8_t*) safe_realloc(client->request.payload, new_total + 1);
+    memcpy(client->request.payload + (new_total - length), at, length);
+    client->request.payload[new_total] = 0;
     client->request.payload_len = new_total;
   }
   return 0;
@@ -393,6 +430,7 @@ static void c4_metrics_update_geo(client_t* client) {
 static int on_message_complete(llhttp_t* parser) {
   client_t* client                 = (client_t*) parser->data;
   client->message_complete_reached = true; // Mark that message is complete
+  if (!client->request.payload) client->request.payload = (uint8_t*) strdup(""); // the handlers expect a string
   log_request(client);
 #ifdef HTTP_SERVER_GEO
   c4_metrics_update_geo(client);
@@ -442,22 +480,16 @@ static void on_read(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
       else if (err == HPE_USER) {
         // HPE_USER is returned from our callbacks (header/body validation)
         // Check which limit was exceeded based on client state
-        if (client->headers_size_received > MAX_HEADERS_SIZE ||
-            client->headers_size_received > 0) {
+        if (client->body_size_received == 0) {
           // Headers were being processed when error occurred
           error_status_code = 431; // Request Header Fields Too Large
           error_reason      = "Request header fields too large";
         }
-        else if (client->body_size_received > 0) {
+        else {
           // Body was being processed when error occurred
           error_status_code = 400; // Bad Request
           error_reason      = "Invalid request body";
         }
-        else {
-          // Generic user error
-          error_status_code = 400; // Bad Request
-          error_reason      = "Invalid request";
-        }
       }
       else {
         // For other errors, use llhttp's error message
@@ -674,13 +706,15 @@ void c4_on_new_connection(uv_stream_t* server, int status) {
   client->keep_alive_idle          = false; // Initial state for new connections
 
   llhttp_settings_init(&client->settings);
-  client->settings.on_url              = on_url;
-  client->settings.on_method           = on_method;
-  client->settings.on_header_field     = on_header_field;
-  client->settings.on_header_value     = on_header_value;
-  client->settings.on_headers_complete = on_headers_complete;
-  client->settings.on_body             = on_body;
-  client->settings.on_message_complete = on_message_complete;
+  client->settings.on_url                   = on_url;
+  client->settings.on_method                = on_method;
+  client->settings.on_method_complete       = on_method_complete;
+  client->settings.on_header_field          = on_header_field;
+  client->settings.on_header_value          = on_header_value;
+  client->settings.on_header_value_complete = on_header_value_complete;
+  client->settings.on_headers_complete      = on_headers_complete;
+  client->settings.on_body                  = on_body;
+  client->settings.on_message_complete      = on_message_complete;
 
   llhttp_init(&client->parser, HTTP_REQUEST, &client->settings);
   client->parser.data = client;
diff --git a/src/server/server.h b/src/server/server.h
index 68c2edd..fa07ab1 100644
--- a/src/server/server.h
+++ b/src/server/server.h
@@ -234,6 +234,8 @@ typedef struct {
   http_request_t    request;
   uv_write_t        write_req;
   char              current_header[128];
+  buffer_t          current_value;            // value of the current header (or the method), which may arrive in more than one read
+  uint64_t          content_length;           // Content-Length of the current request or 0 if there is none
   bool              being_closed;             // Flag to track if this client is being closed
   bool              message_complete_reached; // True if on_message_complete was called for the current request
   bool              keep_alive_idle;          // True if the connection is idle in keep-alive mode, awaiting next request
-- 
2.43.0


From c3bb8038afc535c74837dc0ad2c4c8228f17723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 36/68] fix: server: responses and clients live as long as they
 are used

The response was written from buffers of the caller, which were already freed if the socket could not take all at once.
A client disconnecting while its request is being processed was freed although handlers still held it.
Pipelined requests shared the parser and request data, so only one request per connection is handled at a time now.
---
 src/server/http_server.c | 238 ++++++++++++++++++++-------------------
 src/server/server.h      |   5 +
 2 files changed, 130 insertions(+), 113 deletions(-)

diff --git a/src/server/http_server.c b/src/server/http_server.c
index 41dbe82..bb46541 100644
--- a/src/server/http_server.c
+++ b/src/server/http_server.c
@@ -42,6 +42,8 @@ static char* status_text(int status);
 
 // Forward declaration
 static void on_close(uv_handle_t* handle);
+static void free_client(client_t* client);
+static void parse_request(client_t* client, const char* data, size_t len);
 
 // Centralized function to close a client connection safely
 static void close_client_connection(client_t* client) {
@@ -106,6 +108,13 @@ static void on_close(uv_handle_t* handle) {
     return;
   }
 
+  // As long as a handler is still working on the request, it holds a pointer to the client.
+  // So the memory will be released with the response.
+  client->closed = true;
+  if (!client->pending) free_client(client);
+}
+
+static void free_client(client_t* client) {
   safe_free(client->request.path);
   safe_free(client->request.content_type);
   safe_free(client->request.accept);
@@ -121,10 +130,12 @@ static void on_close(uv_handle_t* handle) {
   safe_free(client->b3_span_id);
   safe_free(client->b3_parent_span_id);
   buffer_free(&client->current_value);
+  buffer_free(&client->response);
+  buffer_free(&client->unparsed);
   // Clear handle->data BEFORE freeing client to avoid use-after-free
   // (handle is part of the client structure, so accessing it after free is invalid)
-  handle->data  = NULL;
-  client->magic = 0; // Invalidate magic number
+  client->handle.data = NULL;
+  client->magic       = 0; // Invalidate magic number
   safe_free(client);
 }
 
@@ -435,21 +446,27 @@ static int on_message_complete(llhttp_t* parser) {
 #ifdef HTTP_SERVER_GEO
   c4_metrics_update_geo(client);
 #endif
+  client->keep_alive = llhttp_should_keep_alive(parser);
+  client->pending    = true;
   http_server.stats.open_requests++;
   http_server.stats.last_request_time = current_ms();
   http_server.stats.total_requests++;
 
+  // only one request per connection is handled at a time, the rest is parsed after the response was written.
+  return HPE_PAUSED;
+}
+
+static void handle_request(client_t* client) {
   // During graceful shutdown, reject all new requests with 503 Service Unavailable
   if (graceful_shutdown_in_progress) {
     c4_write_error_response(client, 503, "Server is shutting down, please try another server");
-    return 0;
+    return;
   }
 
   for (int i = 0; i < handlers_count; i++) {
-    if (handlers[i](client)) return 0;
+    if (handlers[i](client)) return;
   }
   c4_write_error_response(client, 405, "Method not allowed");
-  return 0;
 }
 
 static void alloc_buffer(uv_handle_t* handle, size_t suggested_size, uv_buf_t* buf) {
@@ -458,57 +475,75 @@ static void alloc_buffer(uv_handle_t* handle, size_t suggested_size, uv_buf_t* b
   buf->len  = suggested_size;
 }
 
-static void on_read(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
-  client_t*   client                 = (client_t*) stream->data;
-  bool        should_call_responder  = false; // Renamed from should_close_client to be more specific
-  bool        immediate_close_needed = false; // If true, we close without trying to respond further
-  int         error_status_code      = 0;
-  const char* error_reason           = NULL;
-  char        temp_reason_buffer[256]; // For constructing error messages if needed
+static void parse_request(client_t* client, const char* data, size_t len) {
+  int            error_status_code = 0;
+  const char*    error_reason      = NULL;
+  char           temp_reason_buffer[256]; // For constructing error messages if needed
+  llhttp_errno_t err = llhttp_execute(&(client->parser), data, len);
+
+  if (err == HPE_PAUSED && client->pending) {
+    // the request is complete, so we keep the rest and stop reading until the response has been written
+    const char* end = llhttp_get_error_pos(&(client->parser));
+    buffer_append(&client->unparsed, bytes(end, (uint32_t) (data + len - end)));
+    uv_read_stop((uv_stream_t*) &client->handle);
+    handle_request(client);
+    return;
+  }
 
-  if (nread > 0) {
-    client->keep_alive_idle = false; // Activity detected, not idle anymore
-    llhttp_errno_t err      = llhttp_execute(&(client->parser), buf->base, nread);
-    if (err != HPE_OK) {
-      // Map specific errors to appropriate HTTP status codes FIRST
-      // This allows us to override llhttp's default error messages
-      if (err == HPE_CB_HEADERS_COMPLETE) {
-        // HPE_CB_HEADERS_COMPLETE: Error from on_headers_complete callback (Content-Length validation)
-        error_status_code = 413; // Payload Too Large
-        error_reason      = "Request payload too large";
-      }
-      else if (err == HPE_USER) {
-        // HPE_USER is returned from our callbacks (header/body validation)
-        // Check which limit was exceeded based on client state
-        if (client->body_size_received == 0) {
-          // Headers were being processed when error occurred
-          error_status_code = 431; // Request Header Fields Too Large
-          error_reason      = "Request header fields too large";
-        }
-        else {
-          // Body was being processed when error occurred
-          error_status_code = 400; // Bad Request
-          error_reason      = "Invalid request body";
-        }
+  if (err != HPE_OK) {
+    // Map specific errors to appropriate HTTP status codes FIRST
+    // This allows us to override llhttp's default error messages
+    if (err == HPE_CB_HEADERS_COMPLETE) {
+      // HPE_CB_HEADERS_COMPLETE: Error from on_headers_complete callback (Content-Length validation)
+      error_status_code = 413; // Payload Too Large
+      error_reason      = "Request payload too large";
+    }
+    else if (err == HPE_USER) {
+      // HPE_USER is returned from our callbacks (header/body validation)
+      // Check which limit was exceeded based on client state
+      if (client->body_size_received == 0) {
+        // Headers were being processed when error occurred
+        error_status_code = 431; // Request Header Fields Too Large
+        error_reason      = "Request header fields too large";
       }
       else {
-        // For other errors, use llhttp's error message
-        error_status_code = 400; // Bad Request for other parsing errors
-        error_reason      = llhttp_get_error_reason(&(client->parser));
-        if (error_reason == NULL || strlen(error_reason) == 0) {
-          // Provide a more generic error if llhttp_get_error_reason is unhelpful
-          snprintf(temp_reason_buffer, sizeof(temp_reason_buffer), "HTTP parsing error: %s", llhttp_errno_name(err));
-          error_reason = temp_reason_buffer;
-        }
+        // Body was being processed when error occurred
+        error_status_code = 400; // Bad Request
+        error_reason      = "Invalid request body";
       }
+    }
+    else {
+      // For other errors, use llhttp's error message
+      error_status_code = 400; // Bad Request for other parsing errors
+      error_reason      = llhttp_get_error_reason(&(client->parser));
+      if (error_reason == NULL || strlen(error_reason) == 0) {
+        // Provide a more generic error if llhttp_get_error_reason is unhelpful
+        snprintf(temp_reason_buffer, sizeof(temp_reason_buffer), "HTTP parsing error: %s", llhttp_errno_name(err));
+        error_reason = temp_reason_buffer;
+      }
+    }
 
-      log_error("llhttp error: %s (code: %d) on client 0x%lx", error_reason, (uint32_t) err, (uint64_t) (uintptr_t) client);
+    log_error("llhttp error: %s (code: %d) on client 0x%lx", error_reason, (uint32_t) err, (uint64_t) (uintptr_t) client);
 
-      should_call_responder  = true;
-      immediate_close_needed = true;
-    }
+    // Inform the client and close the connection after the response has been written, since we can't know where the next request starts
+    uv_read_stop((uv_stream_t*) &client->handle);
+    client->keep_alive = false;
+    c4_http_respond(client, error_status_code, "text/plain", bytes(error_reason, strlen(error_reason)));
   }
-  else if (nread == 0 || nread == UV_EOF) { // Graceful EOF or libuv's EOF signal (-4095)
+}
+
+static void on_read(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
+  client_t* client                 = (client_t*) stream->data;
+  bool      immediate_close_needed = false; // If true, we close without trying to respond further
+
+  if (nread > 0) {
+    client->keep_alive_idle = false; // Activity detected, not idle anymore
+    parse_request(client, buf->base, nread);
+  }
+  else if (nread == 0) {
+    // nothing to read now, this is not an error (EAGAIN)
+  }
+  else if (nread == UV_EOF) { // libuv's EOF signal (-4095)
     if (client->keep_alive_idle) {
       // Client closed an idle keep-alive connection. This is normal.
       //      fprintf(stderr, "DEBUG: Client %p closed idle keep-alive connection (code: %zd).\n", (void*) client, nread);
@@ -535,24 +570,14 @@ static void on_read(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
     }
   }
   else { // nread < 0 and not UV_EOF (other libuv errors)
-    error_reason = uv_strerror(nread);
-    log_error("uv_read error: %s on client 0x%lx", error_reason, (uint64_t) (uintptr_t) client);
-    error_status_code      = 500; // Internal Server Error (could be 400 for some client-side disconnects)
-    should_call_responder  = true;
-    immediate_close_needed = true;
+    log_error("uv_read error: %s on client 0x%lx", uv_strerror(nread), (uint64_t) (uintptr_t) client);
+    immediate_close_needed = true; // the connection is broken, so nobody could read a response
   }
 
   if (buf && buf->base) { // Ensure buf and buf->base are valid before freeing
     safe_free(buf->base); // Free the buffer allocated in alloc_buffer
   }
 
-  if (should_call_responder && error_status_code != 0 && error_reason != NULL) {
-    // Attempt to inform client. c4_http_respond will handle inactive handles.
-    c4_http_respond(client, error_status_code, "text/plain", bytes(error_reason, strlen(error_reason)));
-    // If c4_http_respond itself initiated a close (e.g. handle inactive, write failed), immediate_close_needed might be redundant
-    // but close_client_connection is idempotent.
-  }
-
   if (immediate_close_needed) {
     close_client_connection(client);
   }
@@ -594,58 +619,40 @@ void c4_write_error_response(client_t* client, int status, const char* error) {
 }
 
 void c4_http_respond(client_t* client, int status, char* content_type, bytes_t body) {
-  // Only decrement if on_message_complete was reached for this request cycle
-  if (client && client->message_complete_reached) {
-    http_server.stats.open_requests--;
-    // It will be reset in reset_client_request_data if connection is kept alive,
-    // or doesn't matter if connection is closed.
-    // For safety, and if not using reset_client_request_data in a path that calls this,
-    // reset it here too for the non-keep-alive case, though it's redundant if on_close frees the client.
-    // client->message_complete_reached = false; // Resetting here is an option, or in reset_client_request_data for keep-alive
-  }
-
   if (!client) {
     log_error("Attempted to respond to NULL client");
     return;
   }
 
-  if (client->being_closed) {
-    log_error("Attempted to respond to a client that is already being closed");
-    return;
+  // Only decrement if on_message_complete was reached for this request cycle
+  if (client->pending) {
+    client->pending = false;
+    http_server.stats.open_requests--;
   }
 
-  if (!uv_is_active((uv_handle_t*) &client->handle)) {
-    log_error("Attempted to write to inactive client handle for client 0x%lx. Closing connection.",
-              (uint64_t) (uintptr_t) client);
-    close_client_connection(client);
+  if (client->closed) {
+    // the client disconnected while we were working on the request and only waited for us.
+    free_client(client);
     return;
   }
 
-  char     tmp[500];
-  uv_buf_t uvbuf[2]; // Declared to be filled
-
-  const char* conn_header_val = llhttp_should_keep_alive(&client->parser) ? "keep-alive" : "close";
-
-  uvbuf[0].base = tmp;
-  uvbuf[0].len  = snprintf(tmp, sizeof(tmp), "HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: %s\r\n\r\n",
-                           status, status_text(status), content_type, body.len, conn_header_val);
-
-  uvbuf[1].base = (char*) body.data;
-  uvbuf[1].len  = body.len;
-
-  // Set client->being_closed based on the connection header *before* the write attempt.
-  // This informs on_write_complete whether to close or reset for keep-alive.
-  if (strcmp(conn_header_val, "close") == 0) {
-    client->being_closed = true;
+  if (client->being_closed || uv_is_closing((uv_handle_t*) &client->handle)) {
+    log_warn("Attempted to respond to a client that is already being closed");
+    return;
   }
-  // If it's "keep-alive", client->being_closed remains false (its initial state or from a previous keep-alive cycle),
-  // unless an error has already set it to true.
+
+  // head and body must stay valid until the data are written, so the client keeps a copy.
+  buffer_reset(&client->response);
+  bprintf(&client->response, "HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: %s\r\n\r\n",
+          (uint32_t) status, status_text(status), content_type, body.len, client->keep_alive ? "keep-alive" : "close");
+  buffer_append(&client->response, body);
+  uv_buf_t uvbuf = uv_buf_init((char*) client->response.data.data, client->response.data.len);
 
   // Set up a write callback to safely close the handle after writing or reset for keep-alive
   uv_write_t* write_req = &client->write_req;
   write_req->data       = client; // Ensure client is associated with write_req for on_write_complete
 
-  int result = uv_write(write_req, (uv_stream_t*) &client->handle, uvbuf, 2, on_write_complete);
+  int result = uv_write(write_req, (uv_stream_t*) &client->handle, &uvbuf, 1, on_write_complete);
 
   if (result < 0) {
     log_error("Failed to write HTTP response for client 0x%lx: %s",
@@ -672,22 +679,31 @@ static void on_write_complete(uv_write_t* req, int status) {
   if (status < 0) {
     log_error("Write completed with error for client 0x%lx: %s",
               (uint64_t) (uintptr_t) client, uv_strerror(status));
-    // Ensure `being_closed" is true if a write error occurs, so it's closed below.
-    client->being_closed = true;
+    client->keep_alive = false;
   }
 
-  // If client->being_closed is true (set by c4_http_respond for Connection:close, or due to write error),
-  // or if status itself is an error, then close.
-  if (client->being_closed) {
+  if (!client->keep_alive || client->being_closed) {
     close_client_connection(client);
+    return;
   }
-  else {
-    // Keep-alive path: Reset client state for the next request
-    reset_client_request_data(client);
-    llhttp_reset(&client->parser);  // Reset parser for the next request on this connection
-    client->keep_alive_idle = true; // Now connection is idle, awaiting next keep-alive request
-    // The uv_read_start is presumably still active from c4_on_new_connection.
+
+  // Keep-alive path: Reset client state for the next request
+  reset_client_request_data(client);
+  llhttp_resume(&client->parser);
+  llhttp_reset(&client->parser);  // Reset parser for the next request on this connection
+  client->keep_alive_idle = true; // Now connection is idle, awaiting next keep-alive request
+
+  // the next request may already have been received with the last one
+  buffer_t unparsed = client->unparsed;
+  client->unparsed  = (buffer_t) {0};
+  status            = uv_read_start((uv_stream_t*) &client->handle, alloc_buffer, on_read);
+  if (status < 0)
+    close_client_connection(client);
+  else if (unparsed.data.len) {
+    client->keep_alive_idle = false;
+    parse_request(client, (char*) unparsed.data.data, unparsed.data.len);
   }
+  buffer_free(&unparsed);
 }
 
 void c4_on_new_connection(uv_stream_t* server, int status) {
@@ -724,11 +740,7 @@ void c4_on_new_connection(uv_stream_t* server, int status) {
   }
 
   if (err < 0) {
-    const char* reason = uv_strerror(err);
-    log_error("uv_accept/uv_read_start error for new client 0x%lx: %s", (uint64_t) (uintptr_t) client, reason);
-    c4_write_error_response(client, 500, reason);
-    // Attempt to send an error response. c4_http_respond will handle inactive/problematic handles.
-    // Ensure closure, as c4_http_respond might return if handle is inactive without calling on_write_complete.
+    log_error("uv_accept/uv_read_start error for new client 0x%lx: %s", (uint64_t) (uintptr_t) client, uv_strerror(err));
     close_client_connection(client);
   }
 }
diff --git a/src/server/server.h b/src/server/server.h
index fa07ab1..55373ec 100644
--- a/src/server/server.h
+++ b/src/server/server.h
@@ -238,6 +238,11 @@ typedef struct {
   uint64_t          content_length;           // Content-Length of the current request or 0 if there is none
   bool              being_closed;             // Flag to track if this client is being closed
   bool              message_complete_reached; // True if on_message_complete was called for the current request
+  bool              pending;                  // True as long as a handler works on the request, which must end with c4_http_respond
+  bool              closed;                   // True if the connection was closed while a request is pending
+  bool              keep_alive;               // True if the connection stays open after the response
+  buffer_t          response;                 // the response, which must be kept until it is written
+  buffer_t          unparsed;                 // data received after the current request (pipelining)
   bool              keep_alive_idle;          // True if the connection is idle in keep-alive mode, awaiting next request
   size_t            headers_size_received;    // Total size of headers received (for DoS protection)
   size_t            body_size_received;       // Actual body bytes received (for request smuggling protection)
-- 
2.43.0


From b0c62dcd1ebcfcd0aef83ab870465a6ac406d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 37/68] fix: server: requests of disconnected clients are
 finished and responses are valid JSON

Callbacks were skipped for clients which are closing, so the memory and the counter of open requests were lost.
A request finished synchronously released the list while it was still being iterated, joined responses were not
terminated, errors of the prover and /health were not valid JSON and light client updates crashed without a period store.
---
 src/chains/eth/server/handle_headers.c | 13 ----------
 src/chains/eth/server/handle_lcu.c     |  6 +++--
 src/server/handle_health.c             |  2 +-
 src/server/handle_proof.c              |  2 +-
 src/server/handle_unverified_rpc.c     | 12 ---------
 src/server/http_client.c               | 35 +++++++++-----------------
 6 files changed, 18 insertions(+), 52 deletions(-)

diff --git a/src/chains/eth/server/handle_headers.c b/src/chains/eth/server/handle_headers.c
index f86ee7e..4d1d274 100644
--- a/src/chains/eth/server/handle_headers.c
+++ b/src/chains/eth/server/handle_headers.c
@@ -10,19 +10,6 @@
 
 // Callback for proxied requests
 static void c4_proxy_callback(client_t* client, void* data, data_request_t* req) {
-  // Check if client is still valid before responding
-  if (!client || client->being_closed) {
-    log_warn("Client is no longer valid or is being closed - discarding proxy response\n");
-    // Clean up resources
-    if (req) {
-      safe_free(req->url);
-      safe_free(req->response.data);
-      safe_free(req->error);
-      safe_free(req);
-    }
-    return;
-  }
-
   if (req->response.data)
     c4_http_respond(client, 200, req->encoding == C4_DATA_ENCODING_SSZ ? "application/octet-stream" : "application/json", req->response);
   else
diff --git a/src/chains/eth/server/handle_lcu.c b/src/chains/eth/server/handle_lcu.c
index 062f4bd..c980aed 100644
--- a/src/chains/eth/server/handle_lcu.c
+++ b/src/chains/eth/server/handle_lcu.c
@@ -4,6 +4,7 @@
  */
 
 #include "beacon.h"
+#include "eth_conf.h"
 #include "handler.h"
 #include "logger.h"
 #include "period_store.h"
@@ -18,8 +19,8 @@ uint64_t c4_get_query(char* query, char* param) {
     found++;
   else
     return 0;
-  char tmp[20] = {0};
-  for (int i = 0; i < sizeof(tmp); i++) {
+  char tmp[21] = {0};
+  for (int i = 0; i < sizeof(tmp) - 1; i++) {
     if (!found[i] || found[i] == '&') break;
     tmp[i] = found[i];
   }
@@ -41,6 +42,7 @@ bool c4_handle_lcu(client_t* client) {
 
   const char* path = "/eth/v1/beacon/light_client/updates?";
   if (strncmp(client->request.path, path, strlen(path)) != 0) return false;
+  if (!eth_config.period_store) return false; // without a period store the request is forwarded to the beacon node
   char*    query = client->request.path + strlen(path);
   uint64_t start = c4_get_query(query, "start_period");
   uint64_t count = c4_get_query(query, "count");
diff --git a/src/server/handle_health.c b/src/server/handle_health.c
index 9b1269b..91b5b05 100644
--- a/src/server/handle_health.c
+++ b/src/server/handle_health.c
@@ -31,7 +31,7 @@ bool c4_handle_status(client_t* client) {
           "\"last_sync_event\":%l, "
           "\"last_request_time\":%l, "
           "\"open_requests\":%l "
-          "}", // End of stats object and main object
+          "}}", // End of stats object and main object
           http_server.stats.total_requests, http_server.stats.total_errors,
           (now - http_server.stats.last_sync_event) / 1000,
           (now - http_server.stats.last_request_time) / 1000,
diff --git a/src/server/handle_proof.c b/src/server/handle_proof.c
index d7c9d25..ef5af0a 100644
--- a/src/server/handle_proof.c
+++ b/src/server/handle_proof.c
@@ -267,7 +267,7 @@ void c4_prover_handle_request(request_t* req) {
                client_ptr);
 
       buffer_t buf = {0};
-      bprintf(&buf, "{\"error\":\"%s\"}", ctx->state.error);
+      bprintf(&buf, "{\"error\":\"%S\"}", ctx->state.error);
       respond(req, buf.data, 500, "application/json");
       buffer_free(&buf);
       prover_request_free(req);
diff --git a/src/server/handle_unverified_rpc.c b/src/server/handle_unverified_rpc.c
index d8b47ec..ab866d4 100644
--- a/src/server/handle_unverified_rpc.c
+++ b/src/server/handle_unverified_rpc.c
@@ -10,18 +10,6 @@
 
 // Callback for proxied requests
 static void rpc_callback(client_t* client, void* data, data_request_t* req) {
-  // Check if client is still valid before responding
-  if (!client || client->being_closed) {
-    log_warn("Client is no longer valid or is being closed - discarding proxy response");
-    // Clean up resources
-    if (req) {
-      safe_free(req->response.data);
-      safe_free(req->error);
-      safe_free(req);
-    }
-    return;
-  }
-
   if (req->response.data)
     c4_http_respond(client, 200, "application/json", req->response);
   else
diff --git a/src/server/http_client.c b/src/server/http_client.c
index b337ded..c4ffa5a 100644
--- a/src/server/http_client.c
+++ b/src/server/http_client.c
@@ -916,14 +916,9 @@ static void c4_add_request_response(request_t* req) {
   data_request_t*  dr  = req->requests->req;
   if (c4_check_retry_request(req)) return; // if there are data_request in the req, we either clean it up or retry in case of an error (if possible.)
 
-  // Check that client is still valid and not being closed
-  if (!res->client || res->client->being_closed)
-    log_warn("Client is no longer valid or is being closed - discarding response");
-  else
-    // Client is still valid, deliver the response
-    res->cb(req->client, res->data, dr);
-
-  // Clean up resources regardless of client state
+  // deliver the response, even if the connection was closed in the meantime, since the callback also cleans up.
+  res->cb(req->client, res->data, dr);
+
   safe_free(res);
   safe_free(req->requests);
   safe_free(req);
@@ -1035,7 +1030,10 @@ static void trigger_uncached_curl_request(void* data, char* value, size_t value_
   else if (value) { // there is a cached response
     // Cache hit - create response from cached data
     log_info(GRAY("   [cache]") " %s", c4_req_info(r->req->type, r->req->url, r->req->payload));
-    r->req->response = bytes_dup(bytes(value, value_len));
+    // since JSON-responses are parsed as string, the copy is terminated
+    r->req->response = bytes(safe_malloc(value_len + 1), value_len);
+    memcpy(r->req->response.data, value, value_len);
+    r->req->response.data[value_len] = 0;
     r->curl          = NULL; // Mark as done
     r->cached        = true;
     r->end_time      = current_ms();
@@ -1178,9 +1176,11 @@ static void trigger_uncached_curl_request(void* data, char* value, size_t value_
 }
 
 static void trigger_cached_curl_requests(request_t* req) {
-  uint64_t start_time = current_ms();
-  for (size_t i = 0; i < req->request_count; i++) {
-    single_request_t* r       = req->requests + i;
+  uint64_t          start_time = current_ms();
+  size_t            count      = req->request_count; // the last request may call the callback at once, which releases req.
+  single_request_t* requests   = req->requests;
+  for (size_t i = 0; i < count; i++) {
+    single_request_t* r       = requests + i;
     data_request_t*   pending = r->req;
     r->start_time             = start_time;
     r->parent                 = req;         // Set the parent pointer
@@ -1211,17 +1211,6 @@ static void trigger_cached_curl_requests(request_t* req) {
 }
 
 void c4_add_request(client_t* client, data_request_t* req, void* data, http_request_cb cb) {
-  // Check if client is valid and not being closed
-  if (!client || client->being_closed) {
-    log_error("Attempted to add request to invalid or closing client");
-    // Clean up resources since we won't be processing this request
-    if (req) {
-      safe_free(req->url);
-      safe_free(req);
-    }
-    return;
-  }
-
   http_response_t* res = (http_response_t*) safe_calloc(1, sizeof(http_response_t));
   request_t*       r   = (request_t*) safe_calloc(1, sizeof(request_t));
   r->client            = client;
-- 
2.43.0


From e31d88857aebbe0b83b04bc2539edcb2aa372df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 38/68] fix: server: graceful shutdown waits until responses
 are written

A request counted as closed before its response was written, so a
graceful shutdown could close the connection of a client in the middle of the
response. Timers are closed only once and the head poller's transfers do
not call back into the closed loop.
---
 src/server/http_head_poller.c |  3 +++
 src/server/http_server.c      | 19 ++++++++++++++-----
 src/server/server_control.c   |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/server/http_head_poller.c b/src/server/http_head_poller.c
index bb8c929..1b347ab 100644
--- a/src/server/http_head_poller.c
+++ b/src/server/http_head_poller.c
@@ -285,6 +285,9 @@ void c4_stop_rpc_head_poller(void) {
 
   // Cleanup CURL multi
   if (g_head_multi) {
+    // the handles are already closed, so the callbacks must not use them anymore
+    curl_multi_setopt(g_head_multi, CURLMOPT_SOCKETFUNCTION, NULL);
+    curl_multi_setopt(g_head_multi, CURLMOPT_TIMERFUNCTION, NULL);
     curl_multi_cleanup(g_head_multi);
     g_head_multi = NULL;
   }
diff --git a/src/server/http_server.c b/src/server/http_server.c
index bb46541..cd11725 100644
--- a/src/server/http_server.c
+++ b/src/server/http_server.c
@@ -618,26 +618,32 @@ void c4_write_error_response(client_t* client, int status, const char* error) {
   return;
 }
 
+// A request is open until its response was written, so the graceful shutdown waits for it.
+// Nothing to do if on_message_complete was not reached for this request cycle
+static void request_done(client_t* client) {
+  if (!client->message_complete_reached) return;
+  client->message_complete_reached = false;
+  http_server.stats.open_requests--;
+}
+
 void c4_http_respond(client_t* client, int status, char* content_type, bytes_t body) {
   if (!client) {
     log_error("Attempted to respond to NULL client");
     return;
   }
 
-  // Only decrement if on_message_complete was reached for this request cycle
-  if (client->pending) {
-    client->pending = false;
-    http_server.stats.open_requests--;
-  }
+  client->pending = false;
 
   if (client->closed) {
     // the client disconnected while we were working on the request and only waited for us.
+    request_done(client);
     free_client(client);
     return;
   }
 
   if (client->being_closed || uv_is_closing((uv_handle_t*) &client->handle)) {
     log_warn("Attempted to respond to a client that is already being closed");
+    request_done(client);
     return;
   }
 
@@ -657,6 +663,7 @@ void c4_http_respond(client_t* client, int status, char* content_type, bytes_t b
   if (result < 0) {
     log_error("Failed to write HTTP response for client 0x%lx: %s",
               (uint64_t) (uintptr_t) client, uv_strerror(result));
+    request_done(client);
     close_client_connection(client);
     // on_write_complete will not be called, so we must close here.
   }
@@ -676,6 +683,8 @@ static void on_write_complete(uv_write_t* req, int status) {
     return;
   }
 
+  request_done(client);
+
   if (status < 0) {
     log_error("Write completed with error for client 0x%lx: %s",
               (uint64_t) (uintptr_t) client, uv_strerror(status));
diff --git a/src/server/server_control.c b/src/server/server_control.c
index 4ba6adc..5f6cd31 100644
--- a/src/server/server_control.c
+++ b/src/server/server_control.c
@@ -231,7 +231,7 @@ static void close_active_clients(uv_handle_t* handle, void* arg) {
 // Safely stop and close a uv_timer_t if it was initialized
 static void stop_close_timer_safe(uv_timer_t* timer) {
   if (!timer) return;
-  if (timer->type == UV_TIMER && timer->loop != NULL) {
+  if (timer->type == UV_TIMER && timer->loop != NULL && !uv_is_closing((uv_handle_t*) timer)) {
     uv_timer_stop(timer);
     uv_close((uv_handle_t*) timer, NULL);
   }
-- 
2.43.0


From 4f58ae756a43a630ba56c0766f096ea2f9496faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:09 +0000
Subject: [PATCH 39/68] fix: prover: a block hash without a beacon block is an
 error

If the beacon node did not know the block with the given parent root, the prover
used the latest block instead of the requested one.
---
 src/chains/eth/prover/beacon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index be1b910..15d2932 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -335,7 +335,11 @@ static inline c4_status_t eth_get_by_hash(prover_ctx_t* ctx, json_t block_hash,
   TRY_ASYNC(eth_get_block(ctx, block_hash, false, &eth_block));
 
   // get the beacon block matching the parent hash
-  return get_beacon_header_from_eth_block(ctx, eth_block, &header, data_root, parent_root);
+  TRY_ASYNC(get_beacon_header_from_eth_block(ctx, eth_block, &header, data_root, parent_root));
+
+  // without the root we would take the latest block instead
+  if (bytes_all_zero(bytes(data_root, 32))) THROW_ERROR("The beacon block for the given blockhash could not be found!");
+  return C4_SUCCESS;
 }
 
 static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes32_t hash, uint64_t* slot) {
-- 
2.43.0


From a53937906db0e6bf4a823275d4e3e59e92e502c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:51 +0000
Subject: [PATCH 40/68] fix: prover: headers between data and signed block are
 sent in the order the verifier expects

With two or more headers between the data block and the signed block the
verifier always rejected the proof.
---
 src/chains/eth/prover/historic_proof.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 422ab38..2371f57 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -104,7 +104,10 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
   }
 
   block_proof->sync_aggregate = src_block->sync_aggregate;
-  block_proof->historic_proof = proof.data.len ? bytes_dup(proof.data) : bytes(NULL, 0);
+  block_proof->historic_proof = proof.data.len ? bytes(safe_malloc(proof.data.len), proof.data.len) : bytes(NULL, 0);
+  // we collected the headers backwards, but the verifier starts with the header following the data block
+  for (uint32_t pos = 0; pos < proof.data.len; pos += 80)
+    memcpy(block_proof->historic_proof.data + proof.data.len - pos - 80, proof.data.data + pos, 80);
   buffer_reset(&proof);
   buffer_add_le(&proof, json_get_uint64(proof_header, "slot"), 8);
   buffer_add_le(&proof, json_get_uint64(proof_header, "proposer_index"), 8);
-- 
2.43.0


From 282169404b613824d67ce041570074df821a1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:25 +0000
Subject: [PATCH 41/68] fix: prover: a beacon header without valid roots ends
 with an error

Reversing the headers assumes that each of them has 80 bytes, but a node
may answer with a header whose roots are missing or too short.
---
 src/chains/eth/prover/historic_proof.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 2371f57..738fae9 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -101,6 +101,10 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
     buffer_add_le(&proof, json_get_uint64(header, "proposer_index"), 8);
     buffer_append(&proof, json_get_bytes(header, "state_root", &header_buf));
     buffer_append(&proof, json_get_bytes(header, "body_root", &header_buf));
+    if (proof.data.len != (uint32_t) (i + 1) * 80) {
+      buffer_free(&proof);
+      THROW_ERROR("Invalid header!");
+    }
   }
 
   block_proof->sync_aggregate = src_block->sync_aggregate;
-- 
2.43.0


From 68e13e34e02c4f61861cd6aaf0e27381c88e9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 42/68] fix: python: the native code is told which server
 answered

All responses were reported as coming from the first server, so a request
whose answer was not usable was sent to the same server again and again.
---
 bindings/python/src/colibri/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index 737d8fd..cbea535 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -4,7 +4,7 @@ Main Colibri client implementation
 
 import asyncio
 import json
-from typing import Any, Dict, List, Optional, Union
+from typing import Any, Dict, List, Optional, Tuple, Union
 
 import aiohttp
 
@@ -392,10 +392,10 @@ class Colibri:
 
                 # Execute HTTP request
                 try:
-                    response_data = await self._execute_http_request(request, servers)
+                    response_data, node_index = await self._execute_http_request(request, servers)
                     native = _get_native()
                     if native:
-                        native.req_set_response(request.req_ptr, response_data, 0)
+                        native.req_set_response(request.req_ptr, response_data, node_index)
                 except Exception as e:
                     native = _get_native()
                     if native:
@@ -421,7 +421,7 @@ class Colibri:
         self, 
         request: DataRequest, 
         servers: List[str]
-    ) -> bytes:
+    ) -> Tuple[bytes, int]:
         """
         Execute a single HTTP request against multiple servers
         
@@ -430,7 +430,7 @@ class Colibri:
             servers: List of server URLs to try
             
         Returns:
-            Response data as bytes
+            Response data as bytes and the index of the server it came from
             
         Raises:
             HTTPError: If all servers fail
@@ -461,7 +461,7 @@ class Colibri:
                         timeout=aiohttp.ClientTimeout(total=30)
                     ) as response:
                         if response.status == 200:
-                            return await response.read()
+                            return await response.read(), i
                         else:
                             error_text = await response.text()
                             print(f"HTTP {response.status} from {url}: {error_text}")
-- 
2.43.0


From a2a437049d40eaf2157ce3e7b15a1128d8912af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 43/68] fix: python: beacon requests of the verifier fall back
 to the beacon apis

With provers configured only those were asked, so no sync was possible while
they did not answer.
---
 bindings/python/src/colibri/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index cbea535..9f8e2c2 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -384,7 +384,7 @@ class Colibri:
                     servers = self.checkpointz
                 elif request.request_type == "beacon_api":
                     if use_prover_fallback and self.provers:
-                        servers = self.provers
+                        servers = self.provers + self.beacon_apis
                     else:
                         servers = self.beacon_apis
                 else:
-- 
2.43.0


From 7dbfbedbb28c844877b008516ca6dc2473a9b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 44/68] fix: python: the error a server answered with is
 reported

The error of the server was replaced by "All RPC servers failed", so message
and code got lost.
---
 bindings/python/src/colibri/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index 9f8e2c2..0f68a7f 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -506,6 +506,7 @@ class Colibri:
             "Accept": "application/octet-stream" if as_proof else "application/json"
         }
 
+        rpc_error = None
         async with aiohttp.ClientSession() as session:
             for url in urls:
                 try:
@@ -530,8 +531,13 @@ class Colibri:
                             error_text = await response.text()
                             print(f"RPC HTTP {response.status} from {url}: {error_text}")
                             
+                except RPCError as e:
+                    # the server answered with an error, which is reported unless another server has a result
+                    rpc_error = e
                 except Exception as e:
                     print(f"RPC request failed for {url}: {e}")
                     continue
         
+        if rpc_error:
+            raise rpc_error
         raise RPCError(f"All RPC servers failed for {method}")
\ No newline at end of file
-- 
2.43.0


From 72360e042d02e30a814b0d9c44074106f8e685cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 45/68] fix: typescript: a server which cannot be reached does
 not end the call

fetch_rpc gave up with the first network error or unreadable response instead
of asking the next server.
---
 bindings/emscripten/src/http.ts | 42 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index c0a508f..fc3a363 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -96,27 +96,31 @@ function log(msg: string) {
 export async function fetch_rpc(urls: string[], payload: any, as_proof: boolean = false): Promise<any> {
   let last_error = 'All nodes failed';
   for (const url of urls) {
-    const response = await fetch(url, {
-      method: 'POST',
-      body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
-      headers: {
-        'Content-Type': 'application/json',
-        'Accept': as_proof ? 'application/octet-stream' : 'application/json',
-      },
-    });
-    if (response.ok) {
-      if (!as_proof) {
-        const res = await response.json();
-        if (res.error) {
-          last_error = res.error?.message || res.error;
-          continue;
+    try {
+      const response = await fetch(url, {
+        method: 'POST',
+        body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
+        headers: {
+          'Content-Type': 'application/json',
+          'Accept': as_proof ? 'application/octet-stream' : 'application/json',
+        },
+      });
+      if (response.ok) {
+        if (!as_proof) {
+          const res = await response.json();
+          if (res.error) {
+            last_error = res.error?.message || res.error;
+            continue;
+          }
+          return res.result;
         }
-        return res.result;
+        const bytes = await response.blob().then(blob => blob.arrayBuffer());
+        return new Uint8Array(bytes);
+      } else {
+        last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
       }
-      const bytes = await response.blob().then(blob => blob.arrayBuffer());
-      return new Uint8Array(bytes);
-    } else {
-      last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
+    } catch (e) {
+      last_error = (e instanceof Error) ? e.message : String(e);
     }
   }
   throw new Error(last_error);
-- 
2.43.0


From ac74c5321eb7de35f9baa3a67013293638716a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 46/68] fix: typescript: the checkpoint is taken from the next
 server if one cannot be reached

---
 bindings/emscripten/src/index.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index 5cb1988..e20ad04 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -170,16 +170,20 @@ export default class C4Client {
   private async fetch_checkpointz() {
     let checkpoint: string | undefined = undefined
     for (const url of [...(this.config.checkpointz || []), ...(this.config.beacon_apis || []), ...(this.config.prover || [])]) {
-      const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
-        method: 'GET',
-        headers: {
-          "Content-Type": "application/json"
+      try {
+        const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
+          method: 'GET',
+          headers: {
+            "Content-Type": "application/json"
+          }
+        })
+        if (response.ok) {
+          const res = await response.json();
+          checkpoint = res?.data?.finalized?.root
+          if (checkpoint) break;
         }
-      })
-      if (response.ok) {
-        const res = await response.json();
-        checkpoint = res?.data?.finalized?.root
-        if (checkpoint) break;
+      } catch (e) {
+        if (this.config.debug) console.error(`[C4Client] No checkpoint from ${url}:`, e);
       }
     }
     if (!checkpoint) throw new Error('No checkpoint found');
-- 
2.43.0


From 095f5abc5e1a5eaf951a8b496bca8df4cd92f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:19 +0000
Subject: [PATCH 47/68] fix: typescript: newHeads and block filters deliver
 every block once

A block which could not be fetched was skipped (newHeads) or everything after it was lost
(block filters), because the last polled block number was advanced to the head.
---
 bindings/emscripten/src/subscriptionManager.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 2e6137d..6cd4688 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -237,13 +237,13 @@ export class SubscriptionManager {
                 for (let blockNum = fromBlock; blockNum <= currentVerifiableBlockNumber; blockNum++) {
                     try {
                         const block = await this.rpcCall('eth_getBlockByNumber', ['0x' + blockNum.toString(16), sub.kind === 'newHeads' /* full block for newHeads */]);
-                        if (block && this.activeSubscriptions.has(sub.id)) {
-                            if (sub.kind === 'newHeads') results.push(block);
-                            else if (sub.kind === 'block') results.push(block.hash); // eth_newBlockFilter returns block hashes
-                        }
+                        if (!block || !this.activeSubscriptions.has(sub.id)) break;
+                        if (sub.kind === 'newHeads') results.push(block);
+                        else if (sub.kind === 'block') results.push(block.hash); // eth_newBlockFilter returns block hashes
+                        sub.lastPolledBlockNumber = blockNum;
                     } catch (e) {
                         if (this.config.debug) console.error(`[SubMan] Error fetching block ${blockNum} for sub/filter ${sub.id}:`, e);
-                        if (sub.kind === 'block') break; // For block filters, stop if a block in sequence fails
+                        break; // the next poll continues with this block
                     }
                 }
                 if (results.length > 0 && sub.kind === 'newHeads' && !returnResults && this.activeSubscriptions.has(sub.id)) {
@@ -257,7 +257,6 @@ export class SubscriptionManager {
                     });
                     if (this.config.debug) console.log(`[SubMan] Emitted ${results.length} newHead(s) for sub ${sub.id}`);
                 }
-                sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
             }
         } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
             const filterParams = { ...(sub.params || {}) };
-- 
2.43.0


From 895905575386b35be017a89aecee54fabf551a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:19 +0000
Subject: [PATCH 48/68] fix: typescript: log filters continue where the last
 poll ended

Without a verified block number the range was open ended and delivered again with the next
poll, 'latest' as fromBlock threw, and the toBlock of the caller was ignored.
---
 .../emscripten/src/subscriptionManager.ts     | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 6cd4688..7bee7a2 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -26,6 +26,10 @@ import { ProviderRpcError, ProviderMessage } from './types.js'; // Removed unuse
 
 const DEFAULT_POLLING_INTERVAL = 12000; // 12 seconds
 
+function isHexNumber(value: any): boolean {
+    return typeof value === 'string' && value.startsWith('0x');
+}
+
 // Types for subscriptions and filters
 export type EthSubscribeSubscriptionType = 'newHeads' | 'logs';
 export type EthNewFilterType = 'block' | 'pendingTransaction' | 'log';
@@ -259,20 +263,18 @@ export class SubscriptionManager {
                 }
             }
         } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
+            // without a verified block number there is no range which could be continued by the next poll
+            if (!currentVerifiableBlockNumber) return results;
             const filterParams = { ...(sub.params || {}) };
-            if (sub.lastPolledBlockNumber) {
-                filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
-            } else if (!filterParams.fromBlock && currentVerifiableBlockNumber) {
-                filterParams.fromBlock = '0x' + currentVerifiableBlockNumber.toString(16);
-            }
+            if (!sub.lastPolledBlockNumber && (!filterParams.fromBlock || filterParams.fromBlock === 'latest' || filterParams.fromBlock === 'pending'))
+                sub.lastPolledBlockNumber = currentVerifiableBlockNumber - 1n;
+            if (sub.lastPolledBlockNumber) filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
 
-            if (currentVerifiableBlockNumber) {
-                filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
-            } else if (!filterParams.toBlock) {
-                filterParams.toBlock = 'latest';
-            }
+            let toBlock = currentVerifiableBlockNumber;
+            if (isHexNumber(filterParams.toBlock) && BigInt(filterParams.toBlock) < toBlock) toBlock = BigInt(filterParams.toBlock);
+            filterParams.toBlock = '0x' + toBlock.toString(16);
 
-            if (filterParams.fromBlock && filterParams.toBlock && filterParams.toBlock !== 'latest' && BigInt(filterParams.fromBlock) > BigInt(filterParams.toBlock)) {
+            if (isHexNumber(filterParams.fromBlock) && BigInt(filterParams.fromBlock) > toBlock) {
                 // Skip if fromBlock is ahead
             } else {
                 try {
@@ -287,8 +289,7 @@ export class SubscriptionManager {
                             if (this.config.debug) console.log(`[SubMan] Emitted ${logs.length} logs for sub ${sub.id}`);
                         }
                     }
-                    if (filterParams.toBlock !== 'latest') sub.lastPolledBlockNumber = BigInt(filterParams.toBlock);
-                    else if (currentVerifiableBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                    sub.lastPolledBlockNumber = toBlock;
                 } catch (e) {
                     if (this.config.debug) console.error(`[SubMan] Error fetching logs for sub/filter ${sub.id}:`, e);
                 }
-- 
2.43.0


From 6f7a015d884a0707e3b7516baa1d3dcbddf59ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:19 +0000
Subject: [PATCH 49/68] fix: typescript: overlapping eth_getFilterChanges do
 not return the same changes

---
 bindings/emscripten/src/subscriptionManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 7bee7a2..e17d431 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -42,6 +42,8 @@ export interface Subscription {
     lastPolledBlockNumber?: bigint;
     // Only for eth_subscribe subscriptions with active polling
     timeoutId?: number;
+    // Only for filters: the last eth_getFilterChanges, which may still be running
+    pendingPoll?: Promise<any>;
     // internal marker, could also be derived from subscriptionMethod
     // isActivePolling: boolean; // True if managed by setInterval/setTimeout polling loop
 }
@@ -198,7 +200,10 @@ export class SubscriptionManager {
         }
 
         // Perform a one-time poll based on the filter kind
-        return this.executePollLogic(sub, true); // Pass true to indicate results should be returned, not emitted
+        // A poll starts after the previous one ended, otherwise both would return the same changes
+        const result = (sub.pendingPoll || Promise.resolve()).then(() => this.executePollLogic(sub, true)); // Pass true to indicate results should be returned, not emitted
+        sub.pendingPoll = result.catch(() => []);
+        return result;
     }
 
     // For eth_uninstallFilter
-- 
2.43.0


From dbee301fd47e41d40fe7eaa909f9bd187f8d34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:34 +0000
Subject: [PATCH 50/68] fix: typescript: eth_sendTransaction is always verified
 if verifyTransactions is set

---
 bindings/emscripten/src/index.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index e20ad04..1f24cbc 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -381,6 +381,8 @@ export default class C4Client {
 
     let conf = chain_conf(this.config, this.config.chainId)
     let strategy = conf?.proofStrategy || this.config.proofStrategy;
+    // a strategy would pass an unproofable method to the fallback provider without verification
+    if (method === 'eth_sendTransaction' && (this.config as any).verifyTransactions) strategy = undefined;
 
     // If not handled by SubscriptionManager, proceed with standard RPC call logic
     try {
-- 
2.43.0


From f3437e656c33c278fb9ed0b350955db014c51fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:34 +0000
Subject: [PATCH 51/68] fix: typescript: a signed transaction is only sent if
 every field is as requested

---
 .../emscripten/src/transactionVerifier.ts     | 81 +++++++++++--------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/bindings/emscripten/src/transactionVerifier.ts b/bindings/emscripten/src/transactionVerifier.ts
index 5e0ac03..930c61d 100644
--- a/bindings/emscripten/src/transactionVerifier.ts
+++ b/bindings/emscripten/src/transactionVerifier.ts
@@ -62,11 +62,17 @@ export class TransactionVerifier {
         }
 
         try {
+            // the signer gets its own copy, so the comparison uses what the caller asked for
+            txObject = { ...txObject };
+
             // 1. Transaction über fallbackProvider signieren lassen
             const signedRawTx = await config.fallback_provider.request({
                 method: 'eth_signTransaction',
-                params: [txObject]
+                params: [{ ...txObject }]
             }) as string;
+            if (typeof signedRawTx !== 'string') {
+                throw new ProviderRpcError(4201, 'The signer did not return a raw transaction');
+            }
 
             // 2. Signierte Transaction dekodieren
             const decodedTx = await rpcMethod('colibri_decodeTransaction', [signedRawTx], C4MethodType.LOCAL);
@@ -99,49 +105,54 @@ export class TransactionVerifier {
             console.log('Decoded:', decoded);
         }
 
-        // Kritische Parameter vergleichen
-        const criticalFields = ['to', 'value', 'data', 'gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce'];
-
-        for (const field of criticalFields) {
-            if (original[field] !== undefined) {
-                // Normalisierung für Hex-Werte (0x-Prefix, Leading Zeros)
-                const originalValue = this.normalizeHexValue(original[field]);
-                const decodedValue = this.normalizeHexValue(decoded[field]);
-
-                if (originalValue !== decodedValue) {
-                    if (config.debug) {
-                        console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${field}': original='${originalValue}', decoded='${decodedValue}'`);
-                    }
-                    return false;
-                }
-            }
+        const mismatch = this.findMismatch(original, decoded, config);
+        if (mismatch && config.debug) {
+            console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${mismatch}': original='${original[mismatch]}', decoded='${decoded[mismatch]}'`);
         }
+        return !mismatch;
+    }
 
-        // ChainId prüfen
-        if (decoded.chainId && parseInt(decoded.chainId, 16) !== parseInt(config.chainId as string)) {
-            if (config.debug) {
-                console.warn(`[TransactionVerifier] ChainId mismatch: expected=${config.chainId}, decoded=${parseInt(decoded.chainId, 16)}`);
-            }
-            return false;
+    /**
+     * Liefert den Namen des ersten Parameters, der nicht übereinstimmt
+     */
+    private static findMismatch(original: any, decoded: any, config: TransactionVerifierConfig): string | undefined {
+        // Diese Parameter haben einen festen Default, wenn sie nicht angegeben wurden.
+        if (this.normalizeBytes(original.to) !== this.normalizeBytes(decoded.to)) return 'to';
+        if (this.normalizeNumber(original.value) !== this.normalizeNumber(decoded.value)) return 'value';
+        for (const field of ['data', 'input']) {
+            if (original[field] !== undefined && this.normalizeBytes(original[field]) !== this.normalizeBytes(decoded.input)) return field;
+        }
+        if (original.data === undefined && original.input === undefined && this.normalizeBytes(decoded.input) !== '0x') return 'data';
+        for (const field of ['authorizationList', 'blobVersionedHashes']) {
+            if ((decoded[field] || []).length !== (original[field] || []).length) return field;
         }
 
-        return true;
+        // Diese Parameter bestimmt der Signer, wenn sie nicht angegeben wurden.
+        if (original.from && this.normalizeBytes(original.from) !== this.normalizeBytes(decoded.from)) return 'from';
+        for (const field of ['gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce']) {
+            // the gasPrice of an EIP-1559 transaction is limited by its maxFeePerGas
+            const decodedField = field === 'gasPrice' && this.normalizeNumber(decoded.type) >= 2n ? 'maxFeePerGas' : field;
+            if (original[field] !== undefined && this.normalizeNumber(original[field]) !== this.normalizeNumber(decoded[decodedField])) return field;
+        }
+
+        // ChainId prüfen
+        for (const chainId of [original.chainId, config.chainId]) {
+            if (chainId !== undefined && decoded.chainId && this.normalizeNumber(decoded.chainId) !== this.normalizeNumber(chainId)) return 'chainId';
+        }
     }
 
     /**
-     * Normalisiert Hex-Werte für Vergleiche (entfernt führende Nullen, stellt 0x-Prefix sicher)
+     * Normalisiert Adressen und Daten (Groß- und Kleinschreibung)
      */
-    private static normalizeHexValue(value: any): string {
-        if (value === undefined || value === null) return '';
-        if (typeof value === 'number') return '0x' + value.toString(16);
-
-        const str = value.toString();
-        if (!str.startsWith('0x')) return '0x' + str;
+    private static normalizeBytes(value: any): string {
+        return value === undefined || value === null ? '0x' : value.toString().toLowerCase();
+    }
 
-        // Führende Nullen entfernen, aber mindestens eine Ziffer behalten
-        const withoutPrefix = str.slice(2);
-        const normalized = withoutPrefix.replace(/^0+/, '') || '0';
-        return '0x' + normalized;
+    /**
+     * Normalisiert Zahlen (Hex-String, dezimaler String, number oder bigint)
+     */
+    private static normalizeNumber(value: any): bigint {
+        return value === undefined || value === null || value === '0x' ? 0n : BigInt(value);
     }
 }
 
-- 
2.43.0


From ad0847dd177005d137d03c715a17fc974a1dffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:34 +0000
Subject: [PATCH 52/68] fix: numbers of a raw transaction which do not fit into
 the field are an error

---
 src/chains/eth/verifier/eth_tx.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 2ee4d2d..e86fd62 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -429,6 +429,14 @@ static bytes_t get_rlp_field(verify_ctx_t* ctx, bytes_t rlp_list, const rlp_type
   return NULL_BYTES; // Return NULL_BYTES on error
 }
 
+// reads a number, which is an error if it does not fit into max_len bytes
+static bytes_t get_rlp_number(verify_ctx_t* ctx, bytes_t rlp_list, const rlp_type_defs_t* defs, const char* field_name, uint32_t max_len) {
+  bytes_t number = get_rlp_field(ctx, rlp_list, defs, field_name, RLP_ITEM);
+  if (number.len <= max_len) return number;
+  c4_state_add_error(&ctx->state, "number in transaction is too big");
+  return NULL_BYTES;
+}
+
 // Forward declaration or placed before c4_write_tx_data_from_raw
 static ssz_builder_t build_access_list_ssz(verify_ctx_t* ctx, bytes_t rlp_access_list_field, const ssz_def_t* access_list_ssz_def);
 static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp_auth_list_field, const ssz_def_t* auth_list_ssz_def);
@@ -737,15 +745,15 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   // Deposited transactions don't have signatures or gas pricing fields
   if (type != TX_TYPE_DEPOSITED) {
     rlp_tx_sig_y_parity = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "yParity", RLP_ITEM);
-    rlp_v_field         = get_rlp_field(ctx, rlp_list_payload, defs_ptr, "v", RLP_ITEM);
+    rlp_v_field         = get_rlp_number(ctx, rlp_list_payload, defs_ptr, "v", 8);
     tx_sig_y_parity     = rlp_tx_sig_y_parity.len ? rlp_tx_sig_y_parity.data[0] : 0;
-    chain_id            = (uint32_t) bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "chainId", RLP_ITEM));
-    gas_price_rlp_val   = bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gasPrice", RLP_ITEM));
+    chain_id            = (uint32_t) bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "chainId", 4));
+    gas_price_rlp_val   = bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "gasPrice", 8));
   }
 
   if (type >= TX_TYPE_EIP1559 && type != TX_TYPE_DEPOSITED) {
-    max_priority_fee_per_gas_rlp_val = bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "maxPriorityFeePerGas", RLP_ITEM));
-    max_fee_per_gas_rlp_val          = bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "maxFeePerGas", RLP_ITEM));
+    max_priority_fee_per_gas_rlp_val = bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "maxPriorityFeePerGas", 8));
+    max_fee_per_gas_rlp_val          = bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "maxFeePerGas", 8));
   }
 
   // Centralized error check after all get_rlp_field calls for primary tx fields
@@ -760,6 +768,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   if (type == TX_TYPE_LEGACY) {
     v_for_ssz       = bytes_as_be(rlp_v_field);
     tx_sig_y_parity = (v_for_ssz - 1) % 2;
+    if (v_for_ssz / 2 > UINT32_MAX) c4_state_add_error(&ctx->state, "chain id of the transaction is too big");
     chain_id        = v_for_ssz < 35 ? (uint32_t) c4_chain_specific_id(ctx->chain_id) : (uint32_t) ((v_for_ssz - 35 - tx_sig_y_parity) / 2);
   }
   else if (type != TX_TYPE_DEPOSITED)
@@ -797,7 +806,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   // - Fast mode (default): nonce = 0 (avoids receipt proof requirement)
   // - Accurate mode: nonce = depositNonce from receipt (post-Regolith fork, requires receipt proof)
   // TODO: Add configuration option to enable accurate nonce for deposited transactions
-  ssz_add_uint64(buffer, type == TX_TYPE_DEPOSITED ? 0 : bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "nonce", RLP_ITEM)));
+  ssz_add_uint64(buffer, type == TX_TYPE_DEPOSITED ? 0 : bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "nonce", 8)));
   ssz_add_bytes(buffer, "input", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "input", RLP_ITEM));
 
   // Handle signature fields - deposited transactions don't have signatures
@@ -812,10 +821,10 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   ssz_add_uint32(buffer, chain_id);
   ssz_add_uint64(buffer, v_for_ssz);
-  ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gas", RLP_ITEM)));
+  ssz_add_uint64(buffer, bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "gas", 8)));
   ssz_add_bytes(buffer, "from", bytes(from_address, 20));
   ssz_add_bytes(buffer, "to", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "to", RLP_ITEM));
-  ssz_add_uint256(buffer, get_rlp_field(ctx, rlp_list_payload, defs_ptr, "value", RLP_ITEM));
+  ssz_add_uint256(buffer, get_rlp_number(ctx, rlp_list_payload, defs_ptr, "value", 32));
   ssz_add_uint64(buffer, final_gas_price);
 
   // Handle gas pricing fields - not applicable for deposited transactions
@@ -824,8 +833,8 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     ssz_add_uint64(buffer, 0); // maxPriorityFeePerGas
   }
   else {
-    ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "maxFeePerGas", RLP_ITEM)));
-    ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "maxPriorityFeePerGas", RLP_ITEM)));
+    ssz_add_uint64(buffer, bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "maxFeePerGas", 8)));
+    ssz_add_uint64(buffer, bytes_as_be(get_rlp_number(ctx, rlp_list_payload, defs_ptr, "maxPriorityFeePerGas", 8)));
   }
 
   ssz_add_builders(buffer, "accessList", access_list_builder);
@@ -868,5 +877,5 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   if (blob_hashes.data) safe_free(blob_hashes.data);
 
-  return true;
+  return ctx->state.error == NULL;
 }
\ No newline at end of file
-- 
2.43.0


From 172448e1694f840929c4b0170080b85769a79ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 53/68] fix: op: the prover reads the execution payload of the
 preconf correctly and checks its size

---
 src/chains/op/prover/op_proof_account.c |  6 +++++-
 src/chains/op/prover/op_proof_block.c   |  3 ++-
 src/chains/op/prover/op_proof_call.c    |  4 ++++
 src/chains/op/prover/op_proof_logs.c    | 10 +++++++++-
 src/chains/op/prover/op_tools.c         | 11 ++++++++---
 src/chains/op/verifier/op_zstd.c        |  3 ++-
 src/chains/op/verifier/op_zstd.h        |  3 +++
 7 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index 3819805..c702807 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -120,7 +120,11 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
     CHECK_JSON(ctx->params, "[address,block]", "Invalid arguments for AccountProof: ");
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &block_proof));
   ssz_ob_t* execution_payload = op_get_execution_payload(&block_proof);
-  block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
+  if (!execution_payload) {
+    ssz_builder_free(&block_proof);
+    THROW_ERROR("Invalid execution payload in the preconf data");
+  }
+  block_number_uint64 = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
   TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number, block_proof), ssz_builder_free(&block_proof));
diff --git a/src/chains/op/prover/op_proof_block.c b/src/chains/op/prover/op_proof_block.c
index 90527fd..92cbd03 100644
--- a/src/chains/op/prover/op_proof_block.c
+++ b/src/chains/op/prover/op_proof_block.c
@@ -41,13 +41,14 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
   buffer_t buf2         = stack_buffer(path);
   bytes_t  preconf_data = {0};
 
+  if (block_number.type != JSON_TYPE_STRING || block_number.len < 3) THROW_ERROR("Invalid block number");
   if ((ctx->flags & C4_PROVER_FLAG_UNSTABLE_LATEST) == 0 && block_number.start[1] == 'l')
     bprintf(&buf2, "preconf/pre_latest");
   else
     bprintf(&buf2, "preconf/%j", block_number);
 
   TRY_ASYNC(c4_send_internal_request(ctx, (char*) buf2.data.data, NULL, 0, &preconf_data)); // get the raw-data
-  if (!preconf_data.len) THROW_ERROR("No preconf data found, currently only supports preconfs");
+  if (preconf_data.len <= 65) THROW_ERROR("No preconf data found, currently only supports preconfs");
   // Extract payload and signature
   bytes_t payload   = bytes_slice(preconf_data, 0, preconf_data.len - 65);
   bytes_t signature = bytes_slice(preconf_data, preconf_data.len - 65, 65);
diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 21e5a8f..3bc1930 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -78,6 +78,10 @@ c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
   // get the latest block proof
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
   proof.execution_payload = op_get_execution_payload(&proof.block_proof);
+  if (!proof.execution_payload) {
+    free_proof(&proof);
+    THROW_ERROR("Invalid execution payload in the preconf data");
+  }
   proof.target_block      = ssz_get_uint64(proof.execution_payload, "blockNumber");
   proof.miner             = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
diff --git a/src/chains/op/prover/op_proof_logs.c b/src/chains/op/prover/op_proof_logs.c
index 60af86c..e443707 100644
--- a/src/chains/op/prover/op_proof_logs.c
+++ b/src/chains/op/prover/op_proof_logs.c
@@ -143,6 +143,7 @@ static uint8_t* get_cache_key(proof_logs_block_t* block) {
   if (bytes_all_zero(bytes(block->cache_key, 32))) {
     if (!block->block_proof.def) return NULL;
     ssz_ob_t* execution_payload = get_execution_payload(block);
+    if (!execution_payload) return NULL;
     ssz_ob_t  receipt_root      = ssz_get(execution_payload, "receiptsRoot");
     memcpy(block->cache_key, receipt_root.bytes.data, 32);
   }
@@ -159,7 +160,8 @@ static c4_status_t get_receipts(prover_ctx_t* ctx, proof_logs_block_t* blocks) {
     TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block->block_proof));
 #ifdef PROVER_CACHE
     // we get the merkle tree from the cache if available now so we can use it later in the worker thread
-    if (status == C4_SUCCESS && get_cache_key(block) && c4_prover_cache_get(ctx, block->cache_key))
+    if (status == C4_SUCCESS && !get_cache_key(block)) status = c4_state_add_error(&ctx->state, "Invalid execution payload in the preconf data");
+    if (status == C4_SUCCESS && c4_prover_cache_get(ctx, block->cache_key))
       continue;
 #endif
 
@@ -190,6 +192,12 @@ static c4_status_t proof_block(prover_ctx_t* ctx, proof_logs_block_t* block) {
 #endif
     }
 #ifdef PROVER_CACHE
+    // only a tree matching the block may be used for other requests
+    if (!root || !bytes_eq(patricia_get_root(root), bytes(block->cache_key, 32))) {
+      patricia_node_free(root);
+      buffer_free(&receipts_buf);
+      THROW_ERROR("the receipts do not match the receiptsRoot of the block");
+    }
     c4_prover_cache_set(ctx, block->cache_key, root, 500 * len + 200, 200 * 1000, (cache_free_cb) patricia_node_free);
   }
 #endif
diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index 6ee4b16..bebfb2a 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -33,10 +33,15 @@ bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_bui
 }
 
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof) {
-  if (!block_proof || !block_proof->dynamic.data.data) return NULL;
-  size_t  len     = op_zstd_get_decompressed_size(block_proof->dynamic.data);
+  if (!block_proof || block_proof->dynamic.data.len < 2) return NULL;
+  bytes_t compressed = bytes_slice(block_proof->dynamic.data, 1, block_proof->dynamic.data.len - 1); // the first byte is the selector of the union
+  size_t  len        = op_zstd_get_decompressed_size(compressed);
+  if (len < OP_MIN_PAYLOAD_SIZE) return NULL;
   bytes_t payload = bytes(safe_malloc(len), len);
-  op_zstd_decompress(block_proof->dynamic.data, payload);
+  if (op_zstd_decompress(compressed, payload) != len) {
+    safe_free(payload.data);
+    return NULL;
+  }
   ssz_ob_t* ob = (ssz_ob_t*) (void*) payload.data;
   ob->bytes    = bytes_slice(payload, 32, len - 32);
   ob->def      = &EXECUTION_PAYLOAD_CONTAINER;
diff --git a/src/chains/op/verifier/op_zstd.c b/src/chains/op/verifier/op_zstd.c
index 9e1cda1..289bbb9 100644
--- a/src/chains/op/verifier/op_zstd.c
+++ b/src/chains/op/verifier/op_zstd.c
@@ -60,5 +60,6 @@ size_t op_zstd_get_decompressed_size(
     return 0; // All attempts failed
   }
 
-  return (size_t) result;
+  // the size in the header is not trusted, so it has the same limit as the fallback above
+  return result > 16 * 1024 * 1024 ? 0 : (size_t) result;
 }
diff --git a/src/chains/op/verifier/op_zstd.h b/src/chains/op/verifier/op_zstd.h
index a6d2ed2..41b4769 100644
--- a/src/chains/op/verifier/op_zstd.h
+++ b/src/chains/op/verifier/op_zstd.h
@@ -14,6 +14,9 @@
 extern "C" {
 #endif
 
+// the smallest signed payload: the parentBeaconBlockRoot followed by the fixed part of the ExecutionPayload
+#define OP_MIN_PAYLOAD_SIZE (32 + 528)
+
 /**
  * @brief Decompress ZSTD-compressed data
  *
-- 
2.43.0


From 34bb1e81ececb696762e2797cfcf9127de9410a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 54/68] fix: receipts which do not match the receiptsRoot of
 the block are not cached

---
 src/chains/eth/prover/eth_tools.h       |  2 +-
 src/chains/eth/prover/proof_logs.c      |  6 ++++++
 src/chains/eth/prover/proof_receipt.c   | 11 +++++++++--
 src/chains/op/prover/op_proof_receipt.c | 13 ++++++++-----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/prover/eth_tools.h b/src/chains/eth/prover/eth_tools.h
index b347ef2..5c6691e 100644
--- a/src/chains/eth/prover/eth_tools.h
+++ b/src/chains/eth/prover/eth_tools.h
@@ -38,7 +38,7 @@ typedef struct eth_state_overrides eth_state_overrides_t;
 
 bytes_t       eth_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_builder_t proof, ssz_builder_t sync_data);
 ssz_builder_t eth_ssz_create_state_proof(prover_ctx_t* ctx, json_t block_number, beacon_block_t* block, blockroot_proof_t* historic_proof);
-c4_status_t   c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, json_t block_receipts, uint32_t tx_index, json_t* receipt, ssz_ob_t* receipt_proof);
+c4_status_t   c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, bytes_t receipts_root, json_t block_receipts, uint32_t tx_index, json_t* receipt, ssz_ob_t* receipt_proof);
 c4_status_t   c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64_t block_number, ssz_builder_t* builder, address_t miner, const eth_state_overrides_t* overrides);
 
 #ifdef PROVER_CACHE
diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index f4d7b6d..4625055 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -200,6 +200,12 @@ static c4_status_t proof_block(prover_ctx_t* ctx, proof_logs_block_t* block) {
 #endif
     }
 #ifdef PROVER_CACHE
+    // only a tree matching the block may be used for other requests
+    if (!root || !bytes_eq(patricia_get_root(root), ssz_get(&block->beacon_block.execution, "receiptsRoot").bytes)) {
+      patricia_node_free(root);
+      buffer_free(&receipts_buf);
+      THROW_ERROR("the receipts do not match the receiptsRoot of the block");
+    }
     c4_prover_cache_set(ctx, cachekey, root, 500 * len + 200, 200 * 1000, (cache_free_cb) patricia_node_free);
   }
 #endif
diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 6e617b7..1912c60 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -97,7 +97,7 @@ static ssz_ob_t create_receipts_proof(json_t block_receipts, uint32_t tx_index,
   return proof;
 }
 
-c4_status_t c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, json_t block_receipts, uint32_t tx_index, json_t* receipt, ssz_ob_t* receipt_proof) {
+c4_status_t c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, bytes_t receipts_root, json_t block_receipts, uint32_t tx_index, json_t* receipt, ssz_ob_t* receipt_proof) {
 
   // now we should have all data required to create the proof
 #ifdef PROVER_CACHE
@@ -107,6 +107,13 @@ c4_status_t c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, js
   bool    cache_hit    = receipt_tree != NULL;
   if (!cache_hit) REQUEST_WORKER_THREAD(ctx);
   *receipt_proof = create_receipts_proof(block_receipts, tx_index, receipt, &receipt_tree);
+  // only a tree matching the block may be used for other requests
+  if (!cache_hit && (!receipt_tree || !bytes_eq(patricia_get_root(receipt_tree), receipts_root))) {
+    patricia_node_free(receipt_tree);
+    safe_free(receipt_proof->bytes.data);
+    *receipt_proof = (ssz_ob_t) {0};
+    THROW_ERROR("the receipts do not match the receiptsRoot of the block");
+  }
   if (!cache_hit) c4_prover_cache_set(ctx, cachekey, receipt_tree, 100000, 200000, (cache_free_cb) patricia_node_free);
 #else
   *receipt_proof = create_receipts_proof(block_receipts, tx_index, receipt, NULL);
@@ -161,7 +168,7 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &block_proof, &block));
 
   TRACE_START(ctx, "receipt_proof");
-  TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, ssz_get(&(block.execution), "blockHash").bytes.data, block_receipts, tx_index, &receipt, &receipt_proof),
+  TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, ssz_get(&(block.execution), "blockHash").bytes.data, ssz_get(&(block.execution), "receiptsRoot").bytes, block_receipts, tx_index, &receipt, &receipt_proof),
                   c4_free_block_proof(&block_proof));
 
   REQUEST_WORKER_THREAD_CATCH(ctx, c4_free_block_proof(&block_proof));
diff --git a/src/chains/op/prover/op_proof_receipt.c b/src/chains/op/prover/op_proof_receipt.c
index 705261b..13dc9b1 100644
--- a/src/chains/op/prover/op_proof_receipt.c
+++ b/src/chains/op/prover/op_proof_receipt.c
@@ -58,12 +58,10 @@ static c4_status_t create_op_receipt_proof(prover_ctx_t* ctx, ssz_builder_t bloc
 
 c4_status_t c4_op_proof_receipt(prover_ctx_t* ctx) {
   json_t      txhash         = json_at(ctx->params, 0);
-  bytes32_t   block_hash     = {0};
   json_t      tx_data        = {0};
   json_t      block_receipts = {0};
   json_t      receipt        = {0};
   ssz_ob_t    receipt_proof  = {0};
-  buffer_t    buf            = stack_buffer(block_hash);
   c4_status_t status         = C4_SUCCESS;
 
   CHECK_JSON(txhash, "bytes32", "Invalid arguments for Tx: ");
@@ -73,14 +71,19 @@ c4_status_t c4_op_proof_receipt(prover_ctx_t* ctx) {
   ssz_builder_t block_proof  = {0};
   uint32_t      tx_index     = json_get_uint32(tx_data, "transactionIndex");
   json_t        block_number = json_get(tx_data, "blockNumber");
-  json_get_bytes(tx_data, "blockHash", &buf);
 
   TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block_proof));
   TRY_ADD_ASYNC(status, eth_getBlockReceipts(ctx, block_number, &block_receipts));
   TRY_ASYNC_CATCH(status, ssz_builder_free(&block_proof));
 
-  TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, block_hash, block_receipts, tx_index, &receipt, &receipt_proof),
-                  ssz_builder_free(&block_proof));
+  ssz_ob_t* execution_payload = op_get_execution_payload(&block_proof);
+  if (!execution_payload) {
+    ssz_builder_free(&block_proof);
+    THROW_ERROR("Invalid execution payload in the preconf data");
+  }
+  status = c4_eth_get_receipt_proof(ctx, ssz_get(execution_payload, "blockHash").bytes.data, ssz_get(execution_payload, "receiptsRoot").bytes, block_receipts, tx_index, &receipt, &receipt_proof);
+  safe_free(execution_payload);
+  TRY_ASYNC_CATCH(status, ssz_builder_free(&block_proof));
 
   TRY_ASYNC_FINAL(
       create_op_receipt_proof(ctx, block_proof, receipt_proof, receipt),
-- 
2.43.0


From 64de685798db94fac8889ec7cf9f9148946df256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 55/68] fix: op: the transaction of the proof must be the
 requested one

---
 src/chains/op/verifier/op_verify_tx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 150edc1..af7ea9d 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -54,17 +54,18 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t* execution_payload = NULL;
   bytes32_t tx_hash_expected  = {0};
+  bool      by_hash           = false;
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
     bytes32_t block_hash_expected = {0};
     buffer_t  buf                 = stack_buffer(block_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     if (execution_payload == NULL) return false; // error already set
     bytes_t block_hash_found = ssz_get(execution_payload, "blockHash").bytes;
@@ -77,16 +78,24 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     buffer_t buf      = stack_buffer(tx_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
+    by_hash = true;
   }
+  else
+    RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
   if (execution_payload == NULL) return false; // error already set
 
+  if (tx_index >= ssz_len(ssz_get(execution_payload, "transactions"))) {
+    safe_free(execution_payload);
+    RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+  }
+
   // for now we only support the full execution payload
   ssz_ob_t raw              = ssz_at(ssz_get(execution_payload, "transactions"), tx_index);
   ssz_ob_t block_hash       = ssz_get(execution_payload, "blockHash");
   ssz_ob_t block_number     = ssz_get(execution_payload, "blockNumber");
   ssz_ob_t base_fee_per_gas = ssz_get(execution_payload, "baseFeePerGas");
 
-  ctx->success = create_eth_tx_data(ctx, bytes_all_zero(bytes(tx_hash_expected, 32)) ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
+  ctx->success = create_eth_tx_data(ctx, by_hash ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
   safe_free(execution_payload);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From 170bd349975de39f95368d3db8ef8eeaec324d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 56/68] fix: op: a receipt proof is only accepted for a receipt

---
 src/chains/op/verifier/op_verify_receipt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/op/verifier/op_verify_receipt.c b/src/chains/op/verifier/op_verify_receipt.c
index 440c8d7..5349a95 100644
--- a/src/chains/op/verifier/op_verify_receipt.c
+++ b/src/chains/op/verifier/op_verify_receipt.c
@@ -54,6 +54,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
 }
 
 bool op_verify_receipt_proof(verify_ctx_t* ctx) {
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "missing receipt data!");
+  if (strcmp(ctx->method, "eth_getTransactionReceipt")) RETURN_VERIFY_ERROR(ctx, "invalid method for receipt proof!");
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t  receipt_proof     = ssz_get(&ctx->proof, "receipt_proof");
   ssz_ob_t  block_proof       = ssz_get(&ctx->proof, "block_proof");
-- 
2.43.0


From c0c5ecc893ec804a97e55b54ce174abafd5298d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 57/68] fix: op: an account proof is only accepted for account
 methods

---
 src/chains/op/verifier/op_verify_account.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 3cc5c5a..4ad5163 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -52,6 +52,8 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
   json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
+  if (field == ETH_ACCOUNT_NONE) RETURN_VERIFY_ERROR(ctx, "invalid method for an account proof!");
+  if (storage_keys_len > 4096) RETURN_VERIFY_ERROR(ctx, "too many storage keys!");
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
@@ -59,7 +61,7 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
+  if (!eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
 
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
-- 
2.43.0


From 1c61b8b69bc64e22b61db21e8925c041a4ca9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 58/68] fix: op: logs must be those asked for

---
 src/chains/eth/verifier/eth_verify.h        |  1 +
 src/chains/eth/verifier/verify_logs_proof.c |  4 ++--
 src/chains/op/verifier/op_verify_logs.c     | 21 +++++++++++++++------
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/eth_verify.h b/src/chains/eth/verifier/eth_verify.h
index 8cae5b5..01e7550 100644
--- a/src/chains/eth/verifier/eth_verify.h
+++ b/src/chains/eth/verifier/eth_verify.h
@@ -44,6 +44,7 @@ bool verify_eth_local(verify_ctx_t* ctx);
 c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* sync_committee_bits, ssz_ob_t* sync_committee_signature, uint64_t slot, bytes32_t pubkey_hash);
 c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_proof);
 void        eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs);
+bool        eth_log_matches_filter(json_t filter, ssz_ob_t log);
 bool        eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain);
 bool        c4_eth_verify_accounts(verify_ctx_t* ctx, ssz_ob_t accounts, bytes32_t state_root, const eth_state_overrides_t* overrides);
 
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 7aecd3e..40fd713 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -151,7 +151,7 @@ static bool is_hex(json_t val) {
 }
 
 // makes sure the log is one of those the filter asked for
-static bool matches_filter(json_t filter, ssz_ob_t log) {
+bool eth_log_matches_filter(json_t filter, ssz_ob_t log) {
   ssz_ob_t topics        = ssz_get(&log, "topics");
   uint64_t block_number  = ssz_get_uint64(&log, "blockNumber");
   json_t   topics_filter = json_get(filter, "topics");
@@ -195,7 +195,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
-    if (!verify_logs && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
+    if (!verify_logs && !eth_log_matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
   }
 
   ctx->success = true;
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index 3d5c63e..95d05ca 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,12 +40,6 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
@@ -117,6 +111,17 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 }
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
+  bool verify_logs = strcmp(ctx->method, "eth_verifyLogs") == 0;
+  if (!verify_logs && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+
+  // for eth_verifyLogs the logs to verify are always those passed as arguments
+  if (verify_logs) {
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    if (ctx->state.error) return false;
+  }
+  else if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS)))
+    RETURN_VERIFY_ERROR(ctx, "missing logs!");
 
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
@@ -139,6 +144,10 @@ bool op_verify_logs_proof(verify_ctx_t* ctx) {
       c4_state_add_error(&ctx->state, "missing log proof!");
       valid = false;
     }
+    else if (!verify_logs && !eth_log_matches_filter(json_at(ctx->args, 0), log)) {
+      c4_state_add_error(&ctx->state, "log does not match the filter!");
+      valid = false;
+    }
   }
 
   ctx->success = valid;
-- 
2.43.0


From f3aa558ff3db7fca1218c780b0dae6a9ed45a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:23 +0000
Subject: [PATCH 59/68] fix: op: block proofs return the withdrawalsRoot of the
 block and are only accepted for block methods

---
 src/chains/eth/verifier/eth_verify.h     |  1 +
 src/chains/eth/verifier/verify_block.c   |  4 ++--
 src/chains/op/verifier/op_verify_block.c | 24 +++++++++++++++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/eth_verify.h b/src/chains/eth/verifier/eth_verify.h
index 01e7550..f97dd0f 100644
--- a/src/chains/eth/verifier/eth_verify.h
+++ b/src/chains/eth/verifier/eth_verify.h
@@ -45,6 +45,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
 c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_proof);
 void        eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs);
 bool        eth_log_matches_filter(json_t filter, ssz_ob_t log);
+void        eth_create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root);
 bool        eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain);
 bool        c4_eth_verify_accounts(verify_ctx_t* ctx, ssz_ob_t accounts, bytes32_t state_root, const eth_state_overrides_t* overrides);
 
diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 242f4ab..0b85040 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -118,7 +118,7 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 }
 
 // calculates the withdrawalsRoot as used in the execution layer: the root of the patricia trie of all rlp-encoded withdrawals.
-static void create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
+void eth_create_withdrawals_root(ssz_ob_t withdrawals, bytes32_t withdrawals_root) {
   node_t*   root  = NULL;
   bytes32_t tmp   = {0};
   buffer_t  path  = stack_buffer(tmp);
@@ -173,7 +173,7 @@ bool verify_block_proof(verify_ctx_t* ctx) {
   ssz_verify_single_merkle_proof(proof.bytes, exec_root, EXECUTION_PAYLOAD_ROOT_GINDEX, body_root);
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-  create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
+  eth_create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), exec_root);
 
   eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, ssz_get(&header, "parentRoot").bytes.data, exec_root, include_txs);
   if (ctx->state.error || !matches_blocknumber(ctx, execution_payload, block_number)) return false;
diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index 2611bd0..3e42067 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -44,6 +44,8 @@
 
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
+#define EXTRA_DATA_OFFSET 436 // position of the offset of the extraData in the payload
+
 static void verify_signature(bytes_t data, bytes_t signature, uint64_t chain_id, address_t address) {
   uint8_t buf[96] = {0};
   uint8_t pub[64] = {0};
@@ -67,7 +69,10 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   }
 
   size_t expected_size = op_zstd_get_decompressed_size(compressed_data.bytes);
-  if (expected_size == 0) RETURN_VERIFY_ERROR(ctx, "failed to get decompressed size");
+  if (expected_size < OP_MIN_PAYLOAD_SIZE) {
+    c4_state_add_error(&ctx->state, "failed to get decompressed size");
+    return NULL;
+  }
 
   bytes_t decompressed_data = bytes(safe_malloc(expected_size), expected_size);
   size_t  actual_size       = op_zstd_decompress(compressed_data.bytes, decompressed_data);
@@ -119,7 +124,17 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   return execution_payload;
 }
 
+// since isthmus the withdrawalsRoot is part of the payload (following the fixed part of the deneb payload), before it is the root of the withdrawals.
+static void get_withdrawals_root(ssz_ob_t execution_payload, bytes32_t withdrawals_root) {
+  uint32_t fixed_len = OP_MIN_PAYLOAD_SIZE - 32;
+  if (execution_payload.bytes.len >= fixed_len + 32 && uint32_from_le(execution_payload.bytes.data + EXTRA_DATA_OFFSET) == fixed_len + 32)
+    memcpy(withdrawals_root, execution_payload.bytes.data + fixed_len, 32);
+  else
+    eth_create_withdrawals_root(ssz_get(&execution_payload, "withdrawals"), withdrawals_root);
+}
+
 bool op_verify_block(verify_ctx_t* ctx) {
+  if (strcmp(ctx->method, "eth_blockNumber") && strcmp(ctx->method, "eth_getBlockByNumber") && strcmp(ctx->method, "eth_getBlockByHash")) RETURN_VERIFY_ERROR(ctx, "invalid method for block proof!");
   bool      is_blocknumber    = strcmp(ctx->method, "eth_blockNumber") == 0;
   json_t    block_number      = is_blocknumber ? (json_t) {.type = JSON_TYPE_STRING, .start = "\"latest\"", .len = 8} : json_at(ctx->args, 0);
   bool      include_txs       = is_blocknumber ? false : json_as_bool(json_at(ctx->args, 1));
@@ -132,14 +147,13 @@ bool op_verify_block(verify_ctx_t* ctx) {
   if (is_blocknumber) {
     ctx->data       = ssz_get(execution_payload, "blockNumber");
     ctx->data.bytes = bytes_dup(ctx->data.bytes); // need to copy bytes, because payload will be deleted
-    ctx->success    = true;
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else {
-    ssz_hash_tree_root(ssz_get(execution_payload, "withdrawals"), withdrawel_root);
+    get_withdrawals_root(*execution_payload, withdrawel_root);
     eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL, *execution_payload, parent_root, withdrawel_root, include_txs);
   }
   safe_free(execution_payload);
-  ctx->success = true;
-  return true;
+  ctx->success = ctx->state.error == NULL;
+  return ctx->success;
 }
-- 
2.43.0


From 7be726dc640dcbe61626a753f9bcd4e5df51057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:50 +0000
Subject: [PATCH 60/68] fix: a cached answer which cannot be used is not given
 to the same request again and again

---
 bindings/emscripten/src/http.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index fc3a363..f4ceca2 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -155,11 +155,12 @@ export async function handle_request(req: DataRequest, conf: C4Config) {
     : req.url;
 
   let cacheable = conf.cache && conf.cache.cacheable(req);
-  if (cacheable && conf.cache) {
+  // if an answer could not be used, the cached one is not given again
+  if (cacheable && conf.cache && !Number(req.exclude_mask)) {
     const data = conf.cache.get(req);
     if (data) {
       if (conf.debug) log(`::: ${path} (len=${data.length} bytes) CACHED`);
-      c4w._c4w_req_set_response(req.req_ptr, copy_to_c(data, c4w), data.length, 0);
+      c4w._c4w_req_set_response(req.req_ptr, copy_to_c(data, c4w), data.length, Math.min(servers.length, 15));
       return;
     }
   }
-- 
2.43.0


From b3993c49c944d6b0db5381b393d950eb9ba13f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:34 +0000
Subject: [PATCH 61/68] fix: period store: light client updates are served in
 the order of their periods

---
 src/chains/eth/server/period_store_lc.c | 52 +++++++++++--------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/chains/eth/server/period_store_lc.c b/src/chains/eth/server/period_store_lc.c
index 0400d3f..dd7ae4e 100644
--- a/src/chains/eth/server/period_store_lc.c
+++ b/src/chains/eth/server/period_store_lc.c
@@ -18,7 +18,7 @@ typedef struct {
   light_client_cb cb;
   uint64_t        start_period;
   uint32_t        count;
-  buffer_t        out;
+  bytes_t*        updates; // the update of each period (owned)
   uint32_t        missing_count;
   uint32_t*       missing_indices; // indices into [0..count)
   uint32_t        missing_pos;     // next to fetch
@@ -35,6 +35,17 @@ typedef struct {
   uint64_t            period;
 } lcu_fetch_ctx_t;
 
+static void lcu_assemble_finish(lcu_assemble_ctx_t* ctx, char* error) {
+  buffer_t out = {0};
+  if (!error)
+    for (uint32_t i = 0; i < ctx->count; i++) buffer_append(&out, ctx->updates[i]);
+  ctx->cb(ctx->user_data, out.data, error); // transfer ownership
+  for (uint32_t i = 0; i < ctx->count; i++) safe_free(ctx->updates[i].data);
+  safe_free(ctx->updates);
+  safe_free(ctx->missing_indices);
+  safe_free(ctx);
+}
+
 static void lcu_fetch_next(lcu_assemble_ctx_t* ctx);
 
 static void lcu_write_done_cb(void* user_data, file_data_t* files, int num_files) {
@@ -113,15 +124,11 @@ static void lcu_assemble_fetch_cb(client_t* client, void* data, data_request_t*
   if (r->error) {
     char* err = bprintf(NULL, "LCU fetch failed for period %l: %s", p, r->error);
     c4_request_free(r);
-    bytes_t result = NULL_BYTES;
-    a->cb(a->user_data, result, err);
-    buffer_free(&a->out);
-    safe_free(a->missing_indices);
-    safe_free(a);
+    lcu_assemble_finish(a, err);
     return;
   }
-  // append to output
-  buffer_append(&a->out, bytes((uint8_t*) r->response.data, (uint32_t) r->response.len));
+  // keep it at the position of its period
+  a->updates[p - a->start_period] = bytes_dup(r->response);
   // persist to cache (reuse write helper; keeps r alive until write finishes)
   char* dir  = c4_ps_ensure_period_dir(p);
   char* path = bprintf(NULL, "%s/lcu.ssz", dir);
@@ -148,11 +155,7 @@ static void lcu_assemble_fetch_cb(client_t* client, void* data, data_request_t*
 static void lcu_fetch_next(lcu_assemble_ctx_t* ctx) {
   if (ctx->missing_pos >= ctx->missing_count) {
     // done: deliver result
-    bytes_t result = ctx->out.data; // transfer ownership
-    ctx->out       = (buffer_t) {0};
-    ctx->cb(ctx->user_data, result, NULL);
-    safe_free(ctx->missing_indices);
-    safe_free(ctx);
+    lcu_assemble_finish(ctx, NULL);
     return;
   }
   uint32_t        rel_idx    = ctx->missing_indices[ctx->missing_pos++];
@@ -173,7 +176,7 @@ static void lcu_fetch_next(lcu_assemble_ctx_t* ctx) {
 
 static void lcu_assemble_read_cb(void* user_data, file_data_t* files, int num_files) {
   lcu_assemble_ctx_t* ctx = (lcu_assemble_ctx_t*) user_data;
-  // concatenate available; collect missing
+  // take what is available; collect missing
   ctx->missing_indices = (uint32_t*) safe_calloc((size_t) ctx->count, sizeof(uint32_t));
   for (uint32_t i = 0; i < (uint32_t) num_files; i++) {
     if (files[i].error || files[i].data.len == 0) {
@@ -182,21 +185,12 @@ static void lcu_assemble_read_cb(void* user_data, file_data_t* files, int num_fi
         log_debug("period_store: lcu.ssz missing for period %l (%s)", ctx->start_period + i, files[i].error);
     }
     else {
-      buffer_append(&ctx->out, files[i].data);
+      ctx->updates[i] = files[i].data; // transfer ownership
+      files[i].data   = NULL_BYTES;
     }
   }
-  // free read buffers; we've copied what we need
   c4_file_data_array_free(files, num_files, 1);
-  if (ctx->missing_count == 0) {
-    // deliver immediately
-    bytes_t result = ctx->out.data; // transfer ownership to caller
-    ctx->out       = (buffer_t) {0};
-    ctx->cb(ctx->user_data, result, NULL);
-    safe_free(ctx->missing_indices);
-    safe_free(ctx);
-    return;
-  }
-  // fetch missing sequentially to keep order
+  // fetch missing sequentially, or deliver if nothing is missing
   lcu_fetch_next(ctx);
 }
 
@@ -206,7 +200,7 @@ void c4_get_light_client_updates(void* user_data, uint64_t period, uint32_t coun
   ctx->cb                 = cb;
   ctx->start_period       = period;
   ctx->count              = count;
-  ctx->out                = (buffer_t) {0};
+  ctx->updates            = (bytes_t*) safe_calloc(count, sizeof(bytes_t));
   if (!eth_config.period_store) {
     // Fallback: kein Cache → hole alle Perioden direkt und liefere concatenated Ergebnis (nicht persistieren)
     ctx->missing_count   = count;
@@ -230,9 +224,7 @@ void c4_get_light_client_updates(void* user_data, uint64_t period, uint32_t coun
     // Scheduling failed: clean up and fail fast to avoid leaks
     c4_file_data_array_free(files, (int) count, 0);
     char* err = strdup("failed to schedule lcu.ssz reads");
-    cb(user_data, NULL_BYTES, err);
-    buffer_free(&ctx->out);
-    safe_free(ctx);
+    lcu_assemble_finish(ctx, err);
   }
   else {
     // c4_read_files_uv made its own heap copy of the array; free our temporary array container
-- 
2.43.0


From c27f55943ca79e18fe9550cfecbc8761460b8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:43 +0000
Subject: [PATCH 62/68] fix: period store: requests of clients cannot create
 gaps in the store or ask for an unbounded number of updates

---
 src/chains/eth/server/handle_lcu.c                |  7 +++++--
 src/chains/eth/server/period_store.h              |  3 +++
 src/chains/eth/server/period_store_lc.c           | 10 +++++++---
 src/chains/eth/server/period_store_period_index.c |  5 +++++
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/server/handle_lcu.c b/src/chains/eth/server/handle_lcu.c
index c980aed..9efeeb4 100644
--- a/src/chains/eth/server/handle_lcu.c
+++ b/src/chains/eth/server/handle_lcu.c
@@ -10,6 +10,9 @@
 #include "period_store.h"
 #include "prover/prover.h"
 
+// max number of updates in one response (MAX_REQUEST_LIGHT_CLIENT_UPDATES of the beacon api)
+#define MAX_UPDATES 128
+
 // extracts query parameters as uint64
 uint64_t c4_get_query(char* query, char* param) {
   char* found = strstr(query, param);
@@ -53,7 +56,7 @@ bool c4_handle_lcu(client_t* client) {
   }
 
   // Aus dem Period-Store lesen; fehlende Perioden werden automatisch nachgeladen
-  c4_get_light_client_updates(client, start, (uint32_t) count, handle_lcu_updates_cb);
+  c4_get_light_client_updates(client, start, count > MAX_UPDATES ? MAX_UPDATES : (uint32_t) count, handle_lcu_updates_cb);
 
   return true;
 }
@@ -85,6 +88,6 @@ bool c4_handle_lcu_updates(single_request_t* r) {
     c4_internal_call_finish(r);
     return true;
   }
-  c4_get_light_client_updates(r, start, (uint32_t) count, handle_internal_lcu_updates_cb);
+  c4_get_light_client_updates(r, start, count > MAX_UPDATES ? MAX_UPDATES : (uint32_t) count, handle_internal_lcu_updates_cb);
   return true;
 }
\ No newline at end of file
diff --git a/src/chains/eth/server/period_store.h b/src/chains/eth/server/period_store.h
index 769bd05..437ec88 100644
--- a/src/chains/eth/server/period_store.h
+++ b/src/chains/eth/server/period_store.h
@@ -69,6 +69,9 @@ void c4_ps_period_index_init_if_needed(void);
 // Intended to be called when the server creates (or ensures) a period directory.
 void c4_ps_period_index_on_period_dir(uint64_t period);
 
+// Returns true if the directory of the period exists or would extend the known range without a gap.
+bool c4_ps_period_index_extends(uint64_t period);
+
 // Returns true if the initial scan detected gaps in the period directory sequence.
 // If gaps exist, this is considered a critical data integrity issue.
 bool c4_ps_period_index_has_gaps(void);
diff --git a/src/chains/eth/server/period_store_lc.c b/src/chains/eth/server/period_store_lc.c
index dd7ae4e..3103044 100644
--- a/src/chains/eth/server/period_store_lc.c
+++ b/src/chains/eth/server/period_store_lc.c
@@ -129,6 +129,12 @@ static void lcu_assemble_fetch_cb(client_t* client, void* data, data_request_t*
   }
   // keep it at the position of its period
   a->updates[p - a->start_period] = bytes_dup(r->response);
+  // a client may ask for any period, but a directory far away from the others would be a gap in the period store
+  if (!eth_config.period_store || !c4_ps_period_index_extends(p)) {
+    c4_request_free(r);
+    lcu_fetch_next(a);
+    return;
+  }
   // persist to cache (reuse write helper; keeps r alive until write finishes)
   char* dir  = c4_ps_ensure_period_dir(p);
   char* path = bprintf(NULL, "%s/lcu.ssz", dir);
@@ -213,11 +219,9 @@ void c4_get_light_client_updates(void* user_data, uint64_t period, uint32_t coun
   // prepare reads
   file_data_t* files = (file_data_t*) safe_calloc(count, sizeof(file_data_t));
   for (uint32_t i = 0; i < count; i++) {
-    char* dir       = c4_ps_ensure_period_dir(period + i);
-    files[i].path   = bprintf(NULL, "%s/lcu.ssz", dir);
+    files[i].path   = bprintf(NULL, "%s/%l/lcu.ssz", eth_config.period_store, period + i);
     files[i].offset = 0;
     files[i].limit  = 0;
-    safe_free(dir);
   }
   int rc = c4_read_files_uv(ctx, lcu_assemble_read_cb, files, (int) count);
   if (rc < 0) {
diff --git a/src/chains/eth/server/period_store_period_index.c b/src/chains/eth/server/period_store_period_index.c
index 1c393a1..1b69870 100644
--- a/src/chains/eth/server/period_store_period_index.c
+++ b/src/chains/eth/server/period_store_period_index.c
@@ -115,6 +115,11 @@ void c4_ps_period_index_on_period_dir(uint64_t period) {
   g_has_gaps = true;
 }
 
+bool c4_ps_period_index_extends(uint64_t period) {
+  c4_ps_period_index_init_if_needed();
+  return g_has_any && period + 1 >= g_min_period && period <= g_max_period + 1;
+}
+
 bool c4_ps_period_index_has_gaps(void) {
   c4_ps_period_index_init_if_needed();
   return g_has_gaps;
-- 
2.43.0


From 70dd13bed91b9d55824c228507673cbfd3891eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:58 +0000
Subject: [PATCH 63/68] fix: files of the server are replaced as a whole and
 never seen half written

---
 src/chains/eth/server/handle_period_static.c |  2 ++
 src/server/io/uv_util.c                      | 35 +++++++++++++++++---
 src/server/io/uv_util.h                      |  4 +++
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/server/handle_period_static.c b/src/chains/eth/server/handle_period_static.c
index 6e7f262..a8e029b 100644
--- a/src/chains/eth/server/handle_period_static.c
+++ b/src/chains/eth/server/handle_period_static.c
@@ -107,6 +107,8 @@ static void c4_handle_period_static_manifest(client_t* client, uint64_t start_pe
     uv_dirent_t f_ent;
     while (file_count < 10000 && uv_fs_scandir_next(&dir_req, &f_ent) != UV_EOF) {
       if (f_ent.type != UV_DIRENT_FILE) continue;
+      size_t name_len = strlen(f_ent.name);
+      if (name_len >= strlen(C4_TMP_FILE_SUFFIX) && strcmp(f_ent.name + name_len - strlen(C4_TMP_FILE_SUFFIX), C4_TMP_FILE_SUFFIX) == 0) continue; // not complete
 
       // stat to get size
       char*    fpath = bprintf(NULL, "%s/%s", dir_path, f_ent.name);
diff --git a/src/server/io/uv_util.c b/src/server/io/uv_util.c
index 6cbd659..60c1020 100644
--- a/src/server/io/uv_util.c
+++ b/src/server/io/uv_util.c
@@ -143,7 +143,8 @@ static void read_on_read(uv_fs_t* req) {
     return;
   }
   if (req->result == 0) {
-    // EOF
+    // EOF: the file is shorter than expected
+    ctx->f->data.len = (uint32_t) ctx->done;
     uv_fs_req_cleanup(req);
     ctx->close_req.data = ctx;
     uv_fs_close(uv_default_loop(), &ctx->close_req, ctx->fd, read_on_close);
@@ -243,6 +244,8 @@ struct write_one_ctx_s {
   uv_fs_t         open_req;
   uv_fs_t         write_req;
   uv_fs_t         close_req;
+  uv_fs_t         rename_req;
+  char*           tmp_path; // only if the whole file is replaced: it is written to this file first and then renamed
   size_t          to_write;
   size_t          done;
   int             flags;
@@ -255,17 +258,34 @@ static void write_ctx_finish(write_one_ctx_t* ctx) {
     if (parent->wcb) parent->wcb(parent->user_data, parent->files, parent->num_files);
     free(parent);
   }
+  safe_free(ctx->tmp_path);
   free(ctx);
 }
 
-static void write_on_close(uv_fs_t* req) {
+static void write_on_rename(uv_fs_t* req) {
   write_one_ctx_t* ctx = (write_one_ctx_t*) req->data;
+  if (req->result < 0 && !ctx->f->error) ctx->f->error = strdup(uv_strerror((int) req->result));
   uv_fs_req_cleanup(req);
-  ctx->fd                = -1;
-  // one file finished
   write_ctx_finish(ctx);
 }
 
+static void write_on_close(uv_fs_t* req) {
+  write_one_ctx_t* ctx = (write_one_ctx_t*) req->data;
+  uv_fs_req_cleanup(req);
+  ctx->fd = -1;
+  if (!ctx->tmp_path) {
+    // one file finished
+    write_ctx_finish(ctx);
+    return;
+  }
+  // only a complete file takes the place of the old one
+  ctx->rename_req.data = ctx;
+  if (ctx->f->error)
+    uv_fs_unlink(uv_default_loop(), &ctx->rename_req, ctx->tmp_path, write_on_rename);
+  else
+    uv_fs_rename(uv_default_loop(), &ctx->rename_req, ctx->tmp_path, ctx->f->path, write_on_rename);
+}
+
 static void write_on_write(uv_fs_t* req) {
   write_one_ctx_t* ctx = (write_one_ctx_t*) req->data;
   if (req->result < 0) {
@@ -338,8 +358,13 @@ int c4_write_files_uv(void* user_data, c4_write_files_cb cb, file_data_t* files,
       write_ctx_finish(ctx);
       continue;
     }
+    if (flags & O_TRUNC) {
+      // a file is never seen half written: not by readers and not after a crash.
+      static uint32_t tmp_counter = 0;
+      ctx->tmp_path               = bprintf(NULL, "%s.%d" C4_TMP_FILE_SUFFIX, ctx->f->path, tmp_counter++);
+    }
     ctx->open_req.data = ctx;
-    uv_fs_open(uv_default_loop(), &ctx->open_req, ctx->f->path, ctx->flags, ctx->mode, write_on_open);
+    uv_fs_open(uv_default_loop(), &ctx->open_req, ctx->tmp_path ? ctx->tmp_path : ctx->f->path, ctx->flags, ctx->mode, write_on_open);
   }
   return 0;
 }
diff --git a/src/server/io/uv_util.h b/src/server/io/uv_util.h
index 3ad484c..ccae6f4 100644
--- a/src/server/io/uv_util.h
+++ b/src/server/io/uv_util.h
@@ -29,6 +29,9 @@
 extern "C" {
 #endif
 
+// files with this suffix are still being written (or the process ended while writing)
+#define C4_TMP_FILE_SUFFIX ".tmp"
+
 typedef struct file_data_s {
   char*   path;   // file path (owned by caller; not freed by the util)
   size_t  offset; // start offset in file
@@ -51,6 +54,7 @@ int c4_read_files_uv(void* user_data, c4_read_files_cb cb, file_data_t* files, i
 // - Invokes cb once when ALL files finished (success or error).
 // - On success: files[i].error == NULL
 // - On error:   files[i].error is set (caller must free)
+// - With O_TRUNC the file is replaced as a whole: until everything is written, the old file remains.
 // Returns 0 if scheduled, <0 on immediate error (cb not called).
 int c4_write_files_uv(void* user_data, c4_write_files_cb cb, file_data_t* files, int num_files, int flags, int mode);
 
-- 
2.43.0


From 3788dc8a1f7adbcd4fb5ce95158d128746cc9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:23 +0000
Subject: [PATCH 64/68] fix: period store: directories which cannot be created
 do not end the server or lead to files outside of the store

---
 src/chains/eth/server/period_store_backfill.c |  7 ++++---
 src/server/io/uv_util.c                       | 10 ++--------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/server/period_store_backfill.c b/src/chains/eth/server/period_store_backfill.c
index c968a1d..fee7e0e 100644
--- a/src/chains/eth/server/period_store_backfill.c
+++ b/src/chains/eth/server/period_store_backfill.c
@@ -256,15 +256,16 @@ char* c4_ps_ensure_period_dir(uint64_t period) {
     uv_fs_req_cleanup(&req);
   }
 
-  char* dir = bprintf(NULL, "%s/%l", queue.base_dir, period);
+  char* dir = bprintf(NULL, "%s/%l", eth_config.period_store, period);
   if (queue.last_checked_period != period) {
     req    = (uv_fs_t) {0};
     int rc = uv_fs_mkdir(uv_default_loop(), &req, dir, 0777, NULL);
     if (rc < 0 && req.result != UV_EEXIST)
       log_warn("period_store: mkdir failed for %s: %s", dir, uv_strerror((int) req.result));
-    else
+    else {
       c4_ps_period_index_on_period_dir(period);
-    queue.last_checked_period = period;
+      queue.last_checked_period = period;
+    }
     uv_fs_req_cleanup(&req);
   }
 
diff --git a/src/server/io/uv_util.c b/src/server/io/uv_util.c
index 60c1020..00519f8 100644
--- a/src/server/io/uv_util.c
+++ b/src/server/io/uv_util.c
@@ -350,14 +350,8 @@ int c4_write_files_uv(void* user_data, c4_write_files_cb cb, file_data_t* files,
     ctx->flags           = flags;
     ctx->mode            = mode;
     int rc               = c4_ensure_parent_directory(ctx->f->path, C4_DIR_MODE);
-    if (rc != 0) {
-      int sys_err = -rc;
-      int uv_err  = uv_translate_sys_error(sys_err);
-      if (uv_err == 0) uv_err = UV_UNKNOWN;
-      ctx->f->error = strdup(uv_strerror(uv_err));
-      write_ctx_finish(ctx);
-      continue;
-    }
+    if (rc != 0) // opening the file will fail, but the callback is never called before this function returns
+      log_warn("could not create the directory for %s: %s", ctx->f->path, strerror(-rc));
     if (flags & O_TRUNC) {
       // a file is never seen half written: not by readers and not after a crash.
       static uint32_t tmp_counter = 0;
-- 
2.43.0


From 31075bc838fd1d0c1a852f4ad007e1d09ff0b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:17 +0000
Subject: [PATCH 65/68] fix: period store: a header from before a reorg is
 replaced by the backfill

---
 src/chains/eth/server/period_store_backfill.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/server/period_store_backfill.c b/src/chains/eth/server/period_store_backfill.c
index fee7e0e..e37520c 100644
--- a/src/chains/eth/server/period_store_backfill.c
+++ b/src/chains/eth/server/period_store_backfill.c
@@ -711,6 +711,15 @@ static inline bool read_block(uint64_t slot, block_t* result) {
 
   return true;
 }
+// a header from before a reorg may still be there even though the root was already replaced.
+static bool is_header_of_root(block_t* block) {
+  static const ssz_def_t header_def = SSZ_CONTAINER("header", BEACON_BLOCK_HEADER);
+  bytes32_t              root       = {0};
+  if (bytes_all_zero(bytes(block->header, HEADER_SIZE))) return true; // no header for this slot
+  ssz_hash_tree_root(ssz_ob(header_def, bytes(block->header, HEADER_SIZE)), root);
+  return memcmp(root, block->root, 32) == 0;
+}
+
 static inline bool read_parent_block(block_t* current, block_t* result) {
   block_t         block               = {0};
   static uint32_t scanned_since_yield = 0;
@@ -718,7 +727,7 @@ static inline bool read_parent_block(block_t* current, block_t* result) {
   for (uint64_t i = current->slot; i >= bf_ctx.end_slot; i--) {
     uint64_t s = i - 1;
     if (!read_block(s, &block)) return false;           // if false, this means, we need to read the period first.
-    if (memcmp(block.root, current->parent_root, 32)) { // the root must always match the parent root
+    if (memcmp(block.root, current->parent_root, 32) || !is_header_of_root(&block)) { // the root must always match the parent root
 
       // this means we skipped at least one slot,
       // because the header was empty.
-- 
2.43.0


From e9526cfb3475bdf64a5a16e957054fb47458d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:33 +0000
Subject: [PATCH 66/68] fix: period store: a slave accepts only plain filenames
 in the manifest of the master

---
 .../eth/server/period_store_full_sync.c       | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/server/period_store_full_sync.c b/src/chains/eth/server/period_store_full_sync.c
index b55284c..d09664d 100644
--- a/src/chains/eth/server/period_store_full_sync.c
+++ b/src/chains/eth/server/period_store_full_sync.c
@@ -128,6 +128,14 @@ static uint64_t local_file_size(const char* path) {
 
 static void full_sync_download_next(void);
 
+// returns the name of the file or NULL, if it is not a plain filename (it comes from the master and becomes part of a path)
+static char* manifest_filename(ssz_ob_t file) {
+  bytes_t name = ssz_get(&file, "filename").bytes;
+  if (!name.data || name.len < 2 || name.data[name.len - 1] || strlen((char*) name.data) != name.len - 1) return NULL;
+  if (name.data[0] == '.' || strpbrk((char*) name.data, "/\\?#%")) return NULL;
+  return (char*) name.data;
+}
+
 static void full_sync_write_done_cb(void* user_data, file_data_t* files, int num_files) {
   (void) num_files;
   write_ctx_t*    wctx = (write_ctx_t*) user_data;
@@ -310,8 +318,7 @@ static void full_sync_manifest_cb(client_t* client, void* user_data, data_reques
   for (uint32_t i = 0; i < num; i++) {
     ssz_ob_t file   = ssz_at(files_ob, (int) i);
     uint64_t period = ssz_get_uint64(&file, "period");
-    ssz_ob_t nameob = ssz_get(&file, "filename");
-    char*    name   = (char*) nameob.bytes.data;
+    char*    name   = manifest_filename(file);
     if (name && strcmp(name, "blocks_root.bin") == 0) root_periods[root_n++] = period;
   }
   if (root_n > 1) qsort(root_periods, root_n, sizeof(uint64_t), cmp_u64);
@@ -322,10 +329,12 @@ static void full_sync_manifest_cb(client_t* client, void* user_data, data_reques
   for (uint32_t i = 0; i < num; i++) {
     ssz_ob_t file   = ssz_at(files_ob, (int) i);
     uint64_t period = ssz_get_uint64(&file, "period");
-    ssz_ob_t nameob = ssz_get(&file, "filename");
-    char*    name   = (char*) nameob.bytes.data;
+    char*    name   = manifest_filename(file);
     uint32_t len    = ssz_get_uint32(&file, "length");
-    if (!name || !*name) continue;
+    if (!name) {
+      log_warn("period_store: full_sync ignores an invalid filename in the manifest");
+      continue;
+    }
 
     bool force_full = false;
     if ((strcmp(name, "blocks.ssz") == 0 || strcmp(name, "headers.ssz") == 0) && root_n > 0) {
-- 
2.43.0


From f2009b743cfd10f18b1b94ae21ea37a4d11ad0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:33 +0000
Subject: [PATCH 67/68] fix: period store: a slave never mixes two versions of
 a file or skips files of a period

---
 .../eth/server/period_store_full_sync.c       | 71 +++++++++++--------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/chains/eth/server/period_store_full_sync.c b/src/chains/eth/server/period_store_full_sync.c
index d09664d..eca3cc6 100644
--- a/src/chains/eth/server/period_store_full_sync.c
+++ b/src/chains/eth/server/period_store_full_sync.c
@@ -69,17 +69,6 @@ static bool c4_ps_period_is_complete(uint64_t period) {
   return c4_ps_file_exists(period, "blocks_root.bin") && c4_ps_file_exists(period, "zk_proof_g16.bin");
 }
 
-static void c4_ps_full_sync_unmark_complete_period(full_sync_ctx_t* ctx, uint64_t period) {
-  if (!ctx) return;
-  if (period < ctx->start_period) return;
-  if (!c4_ps_period_is_complete(period)) return;
-
-  char* blocks_root = bprintf(NULL, "%s/%l/blocks_root.bin", eth_config.period_store, period);
-  // Pragmatic: if we had an error while syncing a period, remove marker files so the next sync retries cleanly.
-  remove(blocks_root);
-  safe_free(blocks_root);
-}
-
 static uint64_t determine_last_full_period(void) {
   // Find highest numeric period directory, then walk backwards until we find a fully completed period.
   uv_fs_t req = {0};
@@ -136,13 +125,44 @@ static char* manifest_filename(ssz_ob_t file) {
   return (char*) name.data;
 }
 
+// blocks and headers only grow, all other files are replaced as a whole when they change
+static bool is_append_only(const char* filename) {
+  return strcmp(filename, "blocks.ssz") == 0 || strcmp(filename, "headers.ssz") == 0;
+}
+
+// files of a period which may be replaced by others of the same size
+static bool is_replaceable(const char* filename) {
+  return strcmp(filename, "lcu.ssz") == 0 || strcmp(filename, "lcb.ssz") == 0 || strcmp(filename, "historical_root.json") == 0;
+}
+
+// the files which mark a period as complete come last, so a period is never complete while others of its files are missing.
+static int cmp_sync_file(const void* a, const void* b) {
+  const sync_file_t* aa = (const sync_file_t*) a;
+  const sync_file_t* bb = (const sync_file_t*) b;
+  if (aa->period != bb->period) return aa->period < bb->period ? -1 : 1;
+  bool ma = strcmp(aa->filename, "blocks_root.bin") == 0 || strcmp(aa->filename, "zk_proof_g16.bin") == 0;
+  bool mb = strcmp(bb->filename, "blocks_root.bin") == 0 || strcmp(bb->filename, "zk_proof_g16.bin") == 0;
+  return ma != mb ? (int) ma - (int) mb : strcmp(aa->filename, bb->filename);
+}
+
+// without a file we must not go on to the next ones: the next checkpoint tries again.
+static void full_sync_end(void) {
+  full_sync_ctx_t* ctx = &g_full_sync;
+  free_sync_files(ctx->files, ctx->file_count);
+  ctx->files         = NULL;
+  ctx->file_count    = 0;
+  ctx->current_index = 0;
+  ctx->in_progress   = false;
+}
+
 static void full_sync_write_done_cb(void* user_data, file_data_t* files, int num_files) {
   (void) num_files;
   write_ctx_t*    wctx = (write_ctx_t*) user_data;
   data_request_t* req  = wctx ? wctx->req : NULL;
+  bool            failed = false;
   if (files && files[0].error) {
     log_warn("period_store: full_sync write failed: %s", files[0].error);
-    if (wctx) c4_ps_full_sync_unmark_complete_period(wctx->ctx, wctx->period);
+    failed = true;
   }
   c4_file_data_array_free(files, 1, 0);
 
@@ -151,7 +171,10 @@ static void full_sync_write_done_cb(void* user_data, file_data_t* files, int num
 
   safe_free(wctx);
 
-  full_sync_download_next();
+  if (failed)
+    full_sync_end();
+  else
+    full_sync_download_next();
 }
 
 static void full_sync_download_cb(client_t* client, void* user_data, data_request_t* r) {
@@ -166,12 +189,8 @@ static void full_sync_download_cb(client_t* client, void* user_data, data_reques
   if (!r->response.data && !r->error) r->error = strdup("unknown error");
   if (r->error) {
     log_warn("period_store: full_sync download failed: %s", r->error);
-    if (ctx->current_index > 0) {
-      uint32_t idx = ctx->current_index - 1;
-      if (idx < ctx->file_count) c4_ps_full_sync_unmark_complete_period(ctx, ctx->files[idx].period);
-    }
     c4_request_free(r);
-    full_sync_download_next();
+    full_sync_end();
     return;
   }
 
@@ -213,11 +232,10 @@ static void full_sync_download_cb(client_t* client, void* user_data, data_reques
   int wrc = c4_write_files_uv(wctx, full_sync_write_done_cb, files, 1, flags, 0666);
   if (wrc < 0) {
     log_warn("period_store: full_sync scheduling write failed");
-    c4_ps_full_sync_unmark_complete_period(ctx, f->period);
-    c4_file_data_array_free(files, 1, 0);
+    safe_free(out_path);
     safe_free(wctx);
     c4_request_free(r);
-    full_sync_download_next();
+    full_sync_end();
     return;
   }
 }
@@ -243,7 +261,7 @@ static void full_sync_download_next(void) {
       continue; // up to date
 
     uint64_t offset = 0;
-    if (!force_full && local_sz < f->length)
+    if (!force_full && local_sz < f->length && is_append_only(f->filename))
       offset = local_sz;
 
     // Build master URL: <master>/period_store/<period>/<filename>[?offset=...]
@@ -279,11 +297,7 @@ static void full_sync_download_next(void) {
     ctx->last_full_period++;
 
   log_info("period_store: full_sync completed (last_full_period=%l, files=%d)", ctx->last_full_period, ctx->file_count);
-  free_sync_files(ctx->files, ctx->file_count);
-  ctx->files         = NULL;
-  ctx->file_count    = 0;
-  ctx->current_index = 0;
-  ctx->in_progress   = false;
+  full_sync_end();
 }
 
 static void full_sync_manifest_cb(client_t* client, void* user_data, data_request_t* r) {
@@ -336,7 +350,7 @@ static void full_sync_manifest_cb(client_t* client, void* user_data, data_reques
       continue;
     }
 
-    bool force_full = false;
+    bool force_full = len > 0 && is_replaceable(name);
     if ((strcmp(name, "blocks.ssz") == 0 || strcmp(name, "headers.ssz") == 0) && root_n > 0) {
       // If blocks_root.bin exists for this period, force full refresh of blocks/headers.
       uint64_t key = period;
@@ -351,6 +365,7 @@ static void full_sync_manifest_cb(client_t* client, void* user_data, data_reques
   }
 
   safe_free(root_periods);
+  if (ctx->file_count > 1) qsort(ctx->files, ctx->file_count, sizeof(sync_file_t), cmp_sync_file);
 
   // Cleanup manifest response
   ctx->current_index = 0;
-- 
2.43.0


From 35ca275fd148fd4492102a027b8a0d1d2fc4d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:44 +0000
Subject: [PATCH 68/68] fix: a witness signs only existing blocks and is cached
 per chain, key and request

---
 src/chains/eth/prover/proof_witness.c | 56 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/chains/eth/prover/proof_witness.c b/src/chains/eth/prover/proof_witness.c
index 2b1fbf2..4a2d014 100644
--- a/src/chains/eth/prover/proof_witness.c
+++ b/src/chains/eth/prover/proof_witness.c
@@ -60,6 +60,8 @@ static c4_status_t c4_proof_witness_blockhash(prover_ctx_t* ctx, json_t block_nu
   json_t   result   = {0};
 
   TRY_ASYNC(c4_send_eth_rpc(ctx, block_number.len == 68 ? "eth_getBlockByHash" : "eth_getBlockByNumber", bprintf(&buffer, "[%J,false]", block_number), block_number.len == 68 ? DEFAULT_TTL : 12, &result, NULL));
+  if (result.type == JSON_TYPE_NULL) THROW_ERROR_WITH("Block not found : %j", block_number);
+  CHECK_JSON(result, "{number:hexuint,hash:bytes32,stateRoot:bytes32,receiptsRoot:bytes32,transactionsRoot:bytes32}", "Invalid results for Block: ");
 
   ssz_builder_t witness = ssz_builder_for_def(c4_witness_get_def(C4_BLOCK_HASH_WITNESS_ID));
   ssz_add_uint64(&witness, ctx->chain_id);
@@ -73,26 +75,25 @@ static c4_status_t c4_proof_witness_blockhash(prover_ctx_t* ctx, json_t block_nu
   return C4_SUCCESS;
 }
 
-static void create_cache_key(json_t params, bytes32_t cache_key) {
-  uint8_t  tmp[200] = {0};
-  buffer_t buffer   = stack_buffer(tmp);
-  int      p        = 0;
-  memset(cache_key, 0, 32); // Initialize cache_key to zero
+#ifdef PROVER_CACHE
+// the key covers everything the signed witness depends on.
+static void create_cache_key(prover_ctx_t* ctx, bytes32_t cache_key) {
+  buffer_t buffer   = {0};
+  uint64_t chain_id = (uint64_t) ctx->chain_id;
+  buffer_append(&buffer, bytes("c4_witness", 10));
+  buffer_append(&buffer, bytes(&chain_id, sizeof(chain_id)));
+  buffer_append(&buffer, ctx->witness_key);
+  buffer_append(&buffer, bytes(ctx->params.start, ctx->params.len));
+  sha256(buffer.data, cache_key);
+  buffer_free(&buffer);
+}
 
-  json_for_each_value(params, param) {
-    if (param.type == JSON_TYPE_STRING) {
-      bytes_t b = {0};
-      if (param.start[1] == '0' && param.start[2] == 'x')
-        b = json_as_bytes(param, &buffer);
-      else
-        b = bytes(param.start + 1, param.len - 2);
-      if (p + b.len > 32) b.len = 32 - p;
-      memcpy(cache_key + p, b.data, b.len);
-      p += b.len;
-    }
-    if (p > 32) break;
-  }
+// how long (in ms) the witness of a block may be reused, 0 if the block changes with every head.
+static uint64_t cache_ttl(json_t block_number) {
+  if (block_number.type != JSON_TYPE_STRING || block_number.len < 4 || strncmp(block_number.start, "\"0x", 3)) return 0;
+  return block_number.len == 68 ? DEFAULT_TTL : 12000;
 }
+#endif
 
 c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
   json_t        wit_type = json_at(ctx->params, 0);
@@ -100,9 +101,10 @@ c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
   if (ctx->witness_key.len != 32) THROW_ERROR("Witness key is not set");
 #ifdef PROVER_CACHE
   bytes32_t cache_key = {0};
-  create_cache_key(ctx->params, &cache_key);
+  uint64_t  ttl       = cache_ttl(json_at(ctx->params, 1));
+  create_cache_key(ctx, cache_key);
 
-  ssz_ob_t* witness_cache = (ssz_ob_t*) c4_prover_cache_get(ctx, cache_key);
+  ssz_ob_t* witness_cache = ttl ? (ssz_ob_t*) c4_prover_cache_get(ctx, cache_key) : NULL;
   if (witness_cache) {
     ctx->proof = eth_create_proof_request(
         ctx->chain_id,
@@ -125,12 +127,14 @@ c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
 
   ssz_builder_t witness_signed = c4_witness_sign(witness, ctx->witness_key.data);
 #ifdef PROVER_CACHE
-  ssz_ob_t* cache_entry = (ssz_ob_t*) safe_malloc(sizeof(ssz_ob_t) + witness_signed.fixed.data.len + witness_signed.dynamic.data.len);
-  cache_entry->bytes    = bytes(((void*) cache_entry) + sizeof(ssz_ob_t), witness_signed.fixed.data.len + witness_signed.dynamic.data.len);
-  cache_entry->def      = witness_signed.def;
-  if (witness_signed.fixed.data.len) memcpy(cache_entry->bytes.data, witness_signed.fixed.data.data, witness_signed.fixed.data.len);
-  if (witness_signed.dynamic.data.len) memcpy(cache_entry->bytes.data + witness_signed.fixed.data.len, witness_signed.dynamic.data.data, witness_signed.dynamic.data.len);
-  c4_prover_cache_set(ctx, cache_key, cache_entry, sizeof(ssz_ob_t) + cache_entry->bytes.len, DEFAULT_TTL, free);
+  if (ttl) {
+    ssz_ob_t* cache_entry = (ssz_ob_t*) safe_malloc(sizeof(ssz_ob_t) + witness_signed.fixed.data.len + witness_signed.dynamic.data.len);
+    cache_entry->bytes    = bytes(((void*) cache_entry) + sizeof(ssz_ob_t), witness_signed.fixed.data.len + witness_signed.dynamic.data.len);
+    cache_entry->def      = witness_signed.def;
+    if (witness_signed.fixed.data.len) memcpy(cache_entry->bytes.data, witness_signed.fixed.data.data, witness_signed.fixed.data.len);
+    if (witness_signed.dynamic.data.len) memcpy(cache_entry->bytes.data + witness_signed.fixed.data.len, witness_signed.dynamic.data.data, witness_signed.dynamic.data.len);
+    c4_prover_cache_set(ctx, cache_key, cache_entry, sizeof(ssz_ob_t) + cache_entry->bytes.len, ttl, free);
+  }
 #endif
   ctx->proof = eth_create_proof_request(
       ctx->chain_id,
-- 
2.43.0

