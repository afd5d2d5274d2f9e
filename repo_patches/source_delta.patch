From 356317272a2a6d9a98c89e456ec076a1fe398964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 01/13] fix: mark the map dirty on every put and delete, so
 flush/sync_all/sync_data write the data

put_kt() did not set the dirty flag when it created the top node or when it
overwrote a value in place, and a just created map was not dirty although its
file headers were still buffered: a following flush() or sync_xxx() was a no-op.
---
 src/filedb/inner/dbxxx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..5860023 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -53,7 +53,8 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
             idx_file,
             #[cfg(feature = "htx")]
             htx_file,
-            dirty: false,
+            // the headers of new files are still only in the buffers.
+            dirty: true,
             _phantom: std::marker::PhantomData,
         })
     }
@@ -1133,6 +1134,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
@@ -1168,6 +1170,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn del_kt(&mut self, key_kt: &KT) -> Result<Option<Vec<u8>>> {
+        self.dirty = true;
         let top_node = self.idx_file.read_top_node()?;
         let top_node_offset = top_node.get_ref().offset();
         let (top_node, opt_val) = self.delete_from_node_tree_kt(top_node, key_kt)?;
-- 
2.43.0


From ccfcbae522cf9dacb587ca60fbe5a6af44d1c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 02/13] fix: iterating an empty map yields no items instead of
 a panic

DbXxxIterMut::new() pushed the empty top node and next_piece_offset() then
read its key of index 0.
---
 src/filedb/inner/dbxxx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 5860023..f5347dc 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1196,6 +1196,14 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
+            if top_node.get_ref().keys_is_empty() {
+                // the db map is empty.
+                drop(db_map_inner);
+                return Ok(Self {
+                    db_map,
+                    depth_nodes: Vec::new(),
+                });
+            }
             let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
             let mut node = top_node;
             //
-- 
2.43.0


From 669a6deaa13c503db72a87f1251ab13de1e622b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 03/13] fix: write keys and values that are longer than a
 buffer chunk

write_all_small() of rabuf is only for data that fits in one chunk: in a debug
build a value of more than 4096 bytes hit its assertion.
---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..b6c77aa 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -371,7 +371,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..dbfbee2 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -342,7 +342,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From da706431b550a06282d3ae98b37049751acdbb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 04/13] fix: free the empty top node when the first key is put
 into an empty map

The empty top node was abandoned in the idx file: putting and deleting one key
over and over made the idx file grow without limit.
---
 src/filedb/inner/dbxxx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f5347dc..e0d2f14 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -355,11 +355,14 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         key_kt: &KT,
         value: &[u8],
     ) -> Result<IdxNode> {
+        if node_.get_ref().keys_is_empty() {
+            let active_node = self.keys_is_empty_on_insert_(key_kt, value)?;
+            // the empty top node is replaced by the active node.
+            self.idx_file.delete_node(node_)?;
+            return Ok(active_node);
+        }
         let r = {
             let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
-            }
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0


From 8cd7a107227ec70a641f3311247a909304981607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 05/13] fix: the tree checks and statistics no longer panic on
 trees larger than the node cache

They hold a node while reading others; when the node cache then wrote a dirty
node that is held, RefCell panicked "already borrowed".
---
 src/filedb/inner/dbxxx.rs |  8 ++++----
 src/filedb/inner/idx.rs   | 24 ++++++++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index e0d2f14..6fc890d 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -272,22 +272,22 @@ impl<KT: DbMapKeyType + std::fmt::Display> CheckFileDbMap for FileDbXxxInner<KT>
     }
     /// check the index node tree is balanced
     fn is_balanced(&self) -> Result<bool> {
-        let top_node = self.idx_file.read_top_node()?;
+        let top_node = self.idx_file.read_top_node_for_check()?;
         self.idx_file.is_balanced(&top_node)
     }
     /// check the index node tree is multi search tree
     fn is_mst_valid(&self) -> Result<bool> {
-        let top_node = self.idx_file.read_top_node()?;
+        let top_node = self.idx_file.read_top_node_for_check()?;
         self.idx_file.is_mst_valid(&top_node, self)
     }
     /// check the index node except the root and leaves of the tree has branches of hm or more.
     fn is_dense(&self) -> Result<bool> {
-        let top_node = self.idx_file.read_top_node()?;
+        let top_node = self.idx_file.read_top_node_for_check()?;
         self.idx_file.is_dense(&top_node)
     }
     /// get the depth of the index node
     fn depth_of_node_tree(&self) -> Result<u64> {
-        let top_node = self.idx_file.read_top_node()?;
+        let top_node = self.idx_file.read_top_node_for_check()?;
         self.idx_file.depth_of_node_tree(&top_node)
     }
     /// count of the free node
diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..216ada9 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -218,8 +218,20 @@ impl IdxFile {
 
 // for debug
 impl IdxFile {
+    /// read the top node for walking the whole tree.
+    ///
+    /// The walkers hold references of nodes while they read other nodes. Then the node
+    /// cache may be flushed, that must not touch dirty nodes which are referred.
+    pub fn read_top_node_for_check(&self) -> Result<IdxNode> {
+        #[cfg(feature = "node_cache")]
+        {
+            let mut locked = RefCell::borrow_mut(&self.0);
+            locked.flush_node_cache()?;
+        }
+        self.read_top_node()
+    }
     pub fn graph_string(&self) -> Result<String> {
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.graph_string("", &top_node)
     }
@@ -227,7 +239,7 @@ impl IdxFile {
     where
         KT: DbMapKeyType + std::fmt::Display,
     {
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.graph_string_with_key_string("", &top_node, dbxxx)
     }
@@ -555,7 +567,7 @@ impl IdxFile {
     pub fn keys_count_stats(&self) -> Result<KeysCountStats> {
         let mut keys_count_stats = KeysCountStats::default();
         //
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.idx_keys_count_stats(&top_node, &mut keys_count_stats)?;
         //
@@ -586,7 +598,7 @@ impl IdxFile {
             value_piece_vec.push((piece_size, cnt));
         }
         //
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.count_of_used_node(
             &top_node,
@@ -606,7 +618,7 @@ impl IdxFile {
     {
         let mut piece_size_stats = RecordSizeStats::default();
         //
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.idx_piece_size_stats(&top_node, &mut piece_size_stats, read_piece_size_func)?;
         //
@@ -622,7 +634,7 @@ impl IdxFile {
     {
         let mut kv_length_stats = LengthStats::<KV>::default();
         //
-        let top_node = self.read_top_node()?;
+        let top_node = self.read_top_node_for_check()?;
         let mut locked = RefCell::borrow_mut(&self.0);
         locked.idx_kv_length_stats(&top_node, &mut kv_length_stats, read_key_length_func)?;
         //
-- 
2.43.0


From d09079f8e8f63fc8a8547ab13b62bca82e6046e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 06/13] fix: keys_count_stats counts every node of the tree

The top node and the last child of every node were not counted.
---
 src/filedb/inner/idx.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 216ada9..dfb6026 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1436,6 +1436,12 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
+        //
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1452,11 +1458,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From 40292aaa9d167833dea3f7ce61b018125c10492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 07/13] fix: the bulk operations on equal keys have the same
 result as single operations in order

bulk_put() and bulk_put_string() kept the value of the first one of equal
keys, and the result of bulk_delete() for equal keys was in an arbitrary order.
---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..a970bcf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,8 +245,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // the sort must be stable: the last one of equal keys wins.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +261,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // the sort must be stable: the last one of equal keys wins.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +300,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        // the sort must be stable: the first one of equal keys gets the value.
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From 4d23c3023f5dea55b03240bba55f21e16befdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 08/13] fix: memory db string maps keep keys that are not valid
 UTF-8 apart

The keys were converted by String::from_utf8_lossy(), so that different keys
became the same replacement characters.
---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..3913036 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).cloned();
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0


From e321119572011d04badab76f6ccce72dd5a42f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 09/13] fix: small buffer parameters no longer crash

A buffer of one chunk, whose first chunk is pinned, recursed without end in
rabuf: FileBufSizeParam::PerMille(n) with n < 1000 and Size(n) with n less than
two chunks overflowed the stack or panicked. There are always two chunks now.
---
 src/filedb/inner/vfile.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..d0b6860 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -38,6 +38,8 @@ impl VarFile {
         max_num_chunks: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the first chunk is pinned in the buffer: rabuf needs one more chunk to work.
+        let max_num_chunks = max_num_chunks.max(2);
         Ok(Self {
             buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
             piece_mgr,
@@ -55,6 +57,13 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the first chunk is pinned in the buffer: rabuf needs one more chunk to work.
+        // its buffer has at least 32 KiB and one chunk.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(32 * 1024)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From f144e6a23266ae2d4c92a97dfe3d1fab07cc4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 10/13] fix: ht_size_and_count returns the count of items
 instead of zero

It returned the count field of the file header, which is always zero.
---
 src/filedb/inner/htx.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index e609479..0b6509f 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -159,9 +159,12 @@ impl Drop for HtxFile {
 // for debug
 impl HtxFile {
     pub fn ht_size_and_count(&self) -> Result<(u64, u64)> {
-        let mut locked = RefCell::borrow_mut(&self.0);
-        let ht_size = locked.0.read_hash_table_size()?;
-        let count = locked.0.read_item_count()?;
+        let ht_size = {
+            let mut locked = RefCell::borrow_mut(&self.0);
+            locked.0.read_hash_table_size()?
+        };
+        // the count in the header is not maintained.
+        let (count, _per_mill) = self.htx_filling_rate_per_mill()?;
         Ok((ht_size, count))
     }
     pub fn htx_filling_rate_per_mill(&self) -> Result<(u64, u32)> {
@@ -248,7 +251,7 @@ impl VarFile {
         self.seek_from_start(NodePieceOffset::new(HTX_HT_SIZE_OFFSET))?;
         self.write_u64_le(val)
     }
-    fn read_item_count(&mut self) -> Result<u64> {
+    fn _read_item_count(&mut self) -> Result<u64> {
         self.seek_from_start(NodePieceOffset::new(HTX_ITEM_COUNT_OFFSET))?;
         self.read_u64_le()
     }
@@ -262,7 +265,7 @@ impl VarFile {
     }
     fn write_key_piece_offset(&mut self, idx: u64, offset: KeyPieceOffset) -> Result<()> {
         /*<CHECK>
-        let count = self.read_item_count()?;
+        let count = self._read_item_count()?;
         if offset.is_zero() {
             if count > 0 {
                 self.write_item_count(count - 1)?;
-- 
2.43.0


From c901975c52c850f4446f38eefe4dc7852553d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 11/13] fix: keep the size of a reused large piece, so its tail
 is not lost

A large free piece can be larger than the requested size. The new piece was
recorded with the requested size and the rest of the area was lost: putting
and deleting values of two large sizes in turn made the file grow forever.
---
 src/filedb/inner/key.rs | 8 +++++---
 src/filedb/inner/val.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index b6c77aa..4d740ed 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,13 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                // a large free piece may be larger than the new piece size.
+                let piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index dbfbee2..cdcfdf1 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,13 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                // a large free piece may be larger than the new piece size.
+                let piece_size = self.0.read_piece_size()?;
+                (free_piece_offset, piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From 64de2757c54b2658cc8dc83db6bad9d95dbab1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 12/13] fix: write the cached nodes before the files of a map
 are closed

---
 src/filedb/inner/dbxxx.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 6fc890d..3ba3724 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -64,6 +64,15 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     }
 }
 
+/// Write all of the cached nodes and the buffers to disk before closing the files.
+impl<KT: DbMapKeyType> Drop for FileDbXxxInner<KT> {
+    fn drop(&mut self) {
+        if !std::thread::panicking() {
+            let _ = self.flush();
+        }
+    }
+}
+
 // for utils
 impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
     #[inline]
-- 
2.43.0


From fef4b366923ffb30efa5db31301a28bf1ec9d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 13/13] fix: sync_all and sync_data reach the storage also
 after a flush

---
 src/filedb/inner/dbxxx.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 3ba3724..21a8b57 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1042,28 +1042,24 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
     }
     #[inline]
     fn sync_all(&mut self) -> Result<()> {
-        if self.is_dirty() {
-            // save all data and meta
-            self.val_file.sync_all()?;
-            self.key_file.sync_all()?;
-            self.idx_file.sync_all()?;
-            #[cfg(feature = "htx")]
-            self.htx_file.sync_all()?;
-            self.dirty = false;
-        }
+        // save all data and meta, also what an earlier flush left to the OS
+        self.val_file.sync_all()?;
+        self.key_file.sync_all()?;
+        self.idx_file.sync_all()?;
+        #[cfg(feature = "htx")]
+        self.htx_file.sync_all()?;
+        self.dirty = false;
         Ok(())
     }
     #[inline]
     fn sync_data(&mut self) -> Result<()> {
-        if self.is_dirty() {
-            // save all data
-            self.val_file.sync_data()?;
-            self.key_file.sync_data()?;
-            self.idx_file.sync_data()?;
-            #[cfg(feature = "htx")]
-            self.htx_file.sync_data()?;
-            self.dirty = false;
-        }
+        // save all data, also what an earlier flush left to the OS
+        self.val_file.sync_data()?;
+        self.key_file.sync_data()?;
+        self.idx_file.sync_data()?;
+        #[cfg(feature = "htx")]
+        self.htx_file.sync_data()?;
+        self.dirty = false;
         Ok(())
     }
 }
-- 
2.43.0

