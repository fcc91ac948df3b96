From 3ff05da335cac4506c35eddc83d003b6b24c5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 01/17] fix: mark the map dirty on every put and delete

An overwrite served by the hash-table fast path and the first put into an
empty map left the dirty flag clear, so the next flush or sync was a no-op.
---
 src/filedb/inner/dbxxx.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..4152852 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1133,6 +1133,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
@@ -1168,6 +1169,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn del_kt(&mut self, key_kt: &KT) -> Result<Option<Vec<u8>>> {
+        self.dirty = true;
         let top_node = self.idx_file.read_top_node()?;
         let top_node_offset = top_node.get_ref().offset();
         let (top_node, opt_val) = self.delete_from_node_tree_kt(top_node, key_kt)?;
-- 
2.43.0


From 9bc7b731e7171e41fac7e76a397169f302439a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 02/17] fix: iterate over an empty map without panicking

---
 src/filedb/inner/dbxxx.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 4152852..9c9daa3 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1195,17 +1195,16 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
-            let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
+            let mut depth_nodes = Vec::new();
             let mut node = top_node;
-            //
-            loop {
+            // an empty top node has nothing to iterate.
+            while !node.get_ref().keys_is_empty() {
+                depth_nodes.push((node.clone(), 0, 0));
                 let node_offset = node.get_ref().downs_get(0);
                 if node_offset.is_zero() {
                     break;
                 }
-                let down_node = db_map_inner.idx_file.read_node(node_offset).unwrap();
-                depth_nodes.push((down_node.clone(), 0, 0));
-                node = down_node;
+                node = db_map_inner.idx_file.read_node(node_offset)?;
             }
             depth_nodes
         };
-- 
2.43.0


From 0d26f228afe174c5255d368a815a0b269d713e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 03/17] fix: apply bulk entries of the same key in the given
 order

---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..8f47485 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,8 +245,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // stable: entries of the same key are applied in the given order.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +261,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // stable: entries of the same key are applied in the given order.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +300,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        // stable: the same key is deleted in the given order.
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From 07c888986f21b6db253876ad196cef672bebf939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 04/17] fix: keep the size of a reused large piece

A large free piece was rewritten with the smaller size needed by its new
content, and its tail was lost for ever.
---
 src/filedb/inner/key.rs | 7 ++++---
 src/filedb/inner/val.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..bf0c48e 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,12 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // the reused piece keeps its size, it may be larger than needed.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                (free_piece_offset, self.0.read_piece_size()?)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..0e03552 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,12 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // the reused piece keeps its size, it may be larger than needed.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                (free_piece_offset, self.0.read_piece_size()?)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From 9b258ae2550bb29b3d0d0e94986895ef61fda1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 05/17] fix: do not truncate the file when writing a reused
 piece fails

The error recovery cut the file at the piece, dropping every piece behind it.
---
 src/filedb/inner/key.rs | 4 +++-
 src/filedb/inner/val.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index bf0c48e..ef854ff 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -444,7 +444,9 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0e03552..cf06411 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -409,7 +409,9 @@ impl VarFileValueCache {
                 Ok(()) => (),
                 Err(err) => {
                     // recover on error
-                    let _ = self.0.set_file_length(new_piece_offset);
+                    if free_piece_offset.is_zero() {
+                        let _ = self.0.set_file_length(new_piece_offset);
+                    }
                     return Err(err);
                 }
             }
-- 
2.43.0


From 4a4c8a88d3ad7985e0482787aa5dfe9b6eff8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 06/17] fix: write keys and values of any length

write_all_small is for small data that fits in a buffer chunk.
---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index ef854ff..e20e8aa 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -371,7 +371,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index cf06411..0ba0c73 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -342,7 +342,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From 20b9439feb0c9cab2bac0a2af1984d1af5e80e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 07/17] fix: return read errors of an index node instead of
 panicking

---
 src/filedb/inner/tr.rs | 48 +++++++++++-------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/src/filedb/inner/tr.rs b/src/filedb/inner/tr.rs
index b6fe0f5..3403518 100644
--- a/src/filedb/inner/tr.rs
+++ b/src/filedb/inner/tr.rs
@@ -977,17 +977,11 @@ impl IdxNode {
             keys.resize(keys_count, KeyPieceOffset::new(0));
             for _i in 0..keys_count {
                 #[cfg(not(any(feature = "vf_node_u32", feature = "vf_node_u64")))]
-                let piece_offset = file
-                    .read_piece_offset()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset()?;
                 #[cfg(feature = "vf_node_u32")]
-                let piece_offset = file
-                    .read_piece_offset_u32()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset_u32()?;
                 #[cfg(feature = "vf_node_u64")]
-                let piece_offset = file
-                    .read_piece_offset_u64()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset_u64()?;
                 debug_assert!(!piece_offset.is_zero());
                 #[cfg(feature = "siamese_debug")]
                 {
@@ -1003,17 +997,11 @@ impl IdxNode {
             if is_leaf == 0 {
                 for _i in 0..(keys_count + 1) {
                     #[cfg(not(any(feature = "vf_node_u32", feature = "vf_node_u64")))]
-                    let node_offset = file
-                        .read_node_offset()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset()?;
                     #[cfg(feature = "vf_node_u32")]
-                    let node_offset = file
-                        .read_node_offset_u32()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset_u32()?;
                     #[cfg(feature = "vf_node_u64")]
-                    let node_offset = file
-                        .read_node_offset_u64()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset_u64()?;
                     debug_assert!(
                         (node_offset.as_value() & 0x0F) == 0,
                         "(node_offset.as_value(): {} & 0x0F) == 0, offset: {}",
@@ -1039,17 +1027,11 @@ impl IdxNode {
             let keys_ptr = keys.as_mut_ptr();
             for _i in 0..keys_count {
                 #[cfg(not(any(feature = "vf_node_u32", feature = "vf_node_u64")))]
-                let piece_offset = file
-                    .read_piece_offset()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset()?;
                 #[cfg(feature = "vf_node_u32")]
-                let piece_offset = file
-                    .read_piece_offset_u32()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset_u32()?;
                 #[cfg(feature = "vf_node_u64")]
-                let piece_offset = file
-                    .read_piece_offset_u64()
-                    .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                let piece_offset = file.read_piece_offset_u64()?;
                 debug_assert!(!piece_offset.is_zero());
                 #[cfg(feature = "siamese_debug")]
                 {
@@ -1068,17 +1050,11 @@ impl IdxNode {
                 let downs_ptr = downs.as_mut_ptr();
                 for _i in 0..(keys_count + 1) {
                     #[cfg(not(any(feature = "vf_node_u32", feature = "vf_node_u64")))]
-                    let node_offset = file
-                        .read_node_offset()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset()?;
                     #[cfg(feature = "vf_node_u32")]
-                    let node_offset = file
-                        .read_node_offset_u32()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset_u32()?;
                     #[cfg(feature = "vf_node_u64")]
-                    let node_offset = file
-                        .read_node_offset_u64()
-                        .unwrap_or_else(|_| panic!("offset:{}, i:{}", offset, _i));
+                    let node_offset = file.read_node_offset_u64()?;
                     debug_assert!(
                         (node_offset.as_value() & 0x0F) == 0,
                         "(node_offset.as_value(): {} & 0x0F) == 0, offset: {}",
-- 
2.43.0


From 4cf2ab8d246c9766d71a4d359003340bbf178772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 08/17] fix: write back cached index nodes when a map is closed

---
 src/filedb/inner/idx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..66086ea 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -39,6 +39,14 @@ pub struct VarFileNodeCache(pub VarFile, PhantomData<i32>, NodePieceOffset);
 #[derive(Debug)]
 pub struct VarFileNodeCache(pub VarFile, NodeCache, NodePieceOffset);
 
+#[cfg(feature = "node_cache")]
+impl Drop for VarFileNodeCache {
+    fn drop(&mut self) {
+        // the nodes have to reach the file buffer before it is flushed by its own drop.
+        let _ = self.flush_node_cache();
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct IdxFile(pub Rc<RefCell<VarFileNodeCache>>);
 
-- 
2.43.0


From 982b63253e64e9fe93a88cb76c8e265b35d2c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 09/17] fix: never use a file buffer of less than two chunks

A buffer of one chunk recurses for ever as soon as the file is larger than a
chunk, because its only chunk is pinned, and a buffer of none panics.
---
 src/filedb/inner/vfile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..fcb6042 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -39,7 +39,8 @@ impl VarFile {
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
         Ok(Self {
-            buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
+            // the chunk at the start of the file is pinned, so one more chunk is needed.
+            buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks.max(2))?,
             piece_mgr,
             //piece_mgr: PieceMgr::new(free_list_offset, size_ary),
         })
-- 
2.43.0


From 05a6c5acf9d0deba15b28c010f4343b752af448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 10/17] fix: use smaller chunks for a buffer of less than the
 whole file

With 128 kib chunks such a buffer is a single pinned chunk, and the fetch of
any other chunk recurses for ever.
---
 src/filedb/inner/vfile.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index fcb6042..95b9eec 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -56,6 +56,12 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the buffer starts at 32 kib, it has to hold some chunks.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(16 * 1024)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From acfc951376ed356e18203041e01f6e14517a3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 11/17] fix: reuse the empty top node on the first put

The first put into an empty map wrote a new top node and lost the old one.
---
 src/filedb/inner/dbxxx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 9c9daa3..cad8a39 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -354,11 +354,13 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         key_kt: &KT,
         value: &[u8],
     ) -> Result<IdxNode> {
+        if node_.get_ref().keys_is_empty() {
+            // the first key goes into the empty node.
+            let active_node_ = self.keys_is_empty_on_insert_(key_kt, value)?;
+            return self.balance_on_insert(node_, 0, &active_node_);
+        }
         let r = {
             let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
-            }
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0


From 6d15b6d7f191272bd1d20d48124a046d181d3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 12/17] fix: keep a map usable after a crash while it is
 created

The htx file got its full length before its header was written, so a crash in
between left a file with an invalid header that could not be opened any more.
---
 src/filedb/inner/htx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index e609479..316e521 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -75,6 +75,8 @@ impl HtxFile {
         //
         if file_length.is_zero() {
             write_htxf_init_header(&mut file_nc.0, sig2)?;
+            // the header has to be stored before the file gets its full length.
+            file_nc.0.sync_data()?;
             let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * DEFAULT_HT_SIZE);
             file_nc.0.set_file_length(off)?;
             let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * DEFAULT_HT_SIZE - 8);
@@ -85,6 +87,12 @@ impl HtxFile {
             check_htxf_header(&mut file_nc.0, sig2)?;
             let ht_size = file_nc.0.read_hash_table_size()?;
             file_nc.1 = ht_size;
+            // the creation may have been interrupted before the file got its full length.
+            let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * ht_size);
+            if file_length < off {
+                file_nc.0.sync_data()?;
+                file_nc.0.set_file_length(off)?;
+            }
         }
         Ok(Self(Rc::new(RefCell::new(file_nc))))
     }
-- 
2.43.0


From a08aaedf4dc58c556323c4dc1b52eac144293d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 13/17] fix: do not panic when an inspected node is evicted
 from the node cache

The inspection functions hold a borrow of a node while they visit its children,
and writing that node back borrowed it mutably.
---
 src/filedb/inner/tr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/tr.rs b/src/filedb/inner/tr.rs
index 3403518..ec5b6f0 100644
--- a/src/filedb/inner/tr.rs
+++ b/src/filedb/inner/tr.rs
@@ -110,8 +110,12 @@ impl IdxNode {
     }
     #[inline]
     pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
-        let mut locked = RefCell::borrow_mut(&self.0);
-        locked.idx_write_node_one(file)
+        RefCell::borrow(&self.0).idx_write_node_one(file)?;
+        // a node that somebody is just reading stays dirty, that is harmless.
+        if let Ok(mut locked) = RefCell::try_borrow_mut(&self.0) {
+            locked.is_dirty = false;
+        }
+        Ok(())
     }
 }
 
@@ -800,7 +804,7 @@ impl TreeNode {
         sum_size
     }
     //
-    pub(crate) fn idx_write_node_one(&mut self, file: &mut VarFile) -> Result<()> {
+    pub(crate) fn idx_write_node_one(&self, file: &mut VarFile) -> Result<()> {
         if !self.is_dirty {
             let _phantom = std::marker::PhantomData::<i32>;
             return Ok(());
@@ -924,8 +928,6 @@ impl TreeNode {
         //
         file.write_zero_to_offset(self.offset + self.size)?;
         //
-        self.is_dirty = false;
-        //
         #[cfg(debug_assertions)]
         {
             let _current_pos = file.seek_position()?;
-- 
2.43.0


From d7dc8c774db3f62bae35f6d603e73ca507d5b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 14/17] fix: synchronize a map that has been flushed

flush cleared the dirty flag, so a following sync_all or sync_data returned
without synchronizing anything.
---
 src/filedb/inner/dbxxx.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index cad8a39..1535960 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1031,28 +1031,24 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
     }
     #[inline]
     fn sync_all(&mut self) -> Result<()> {
-        if self.is_dirty() {
-            // save all data and meta
-            self.val_file.sync_all()?;
-            self.key_file.sync_all()?;
-            self.idx_file.sync_all()?;
-            #[cfg(feature = "htx")]
-            self.htx_file.sync_all()?;
-            self.dirty = false;
-        }
+        // save all data and meta, a clean map may have been flushed but never synchronized.
+        self.val_file.sync_all()?;
+        self.key_file.sync_all()?;
+        self.idx_file.sync_all()?;
+        #[cfg(feature = "htx")]
+        self.htx_file.sync_all()?;
+        self.dirty = false;
         Ok(())
     }
     #[inline]
     fn sync_data(&mut self) -> Result<()> {
-        if self.is_dirty() {
-            // save all data
-            self.val_file.sync_data()?;
-            self.key_file.sync_data()?;
-            self.idx_file.sync_data()?;
-            #[cfg(feature = "htx")]
-            self.htx_file.sync_data()?;
-            self.dirty = false;
-        }
+        // save all data, a clean map may have been flushed but never synchronized.
+        self.val_file.sync_data()?;
+        self.key_file.sync_data()?;
+        self.idx_file.sync_data()?;
+        #[cfg(feature = "htx")]
+        self.htx_file.sync_data()?;
+        self.dirty = false;
         Ok(())
     }
 }
-- 
2.43.0


From 7d79837c655116250c451a4e9dafb69bb71d94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 15/17] hook: small file buffer chunks for simulations (--cfg
 siamesedb_small_chunks)

---
 src/filedb/inner/htx.rs | 4 ++++
 src/filedb/inner/idx.rs | 4 ++++
 src/filedb/inner/key.rs | 4 ++++
 src/filedb/inner/mod.rs | 4 ++++
 src/filedb/inner/val.rs | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index 316e521..001d58a 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -13,7 +13,11 @@ use std::rc::Rc;
 type HeaderSignature = [u8; 8];
 
 //const CHUNK_SIZE: u32 = 4 * 1024;
+#[cfg(not(siamesedb_small_chunks))]
 const CHUNK_SIZE: u32 = 128 * 1024;
+// for simulations: many chunks with few data.
+#[cfg(siamesedb_small_chunks)]
+const CHUNK_SIZE: u32 = 512;
 //const CHUNK_SIZE: u32 = 1024 * 1024;
 const HTX_HEADER_SZ: u64 = 128;
 const HTX_HEADER_SIGNATURE: HeaderSignature = [b's', b'i', b'a', b'm', b'd', b'b', b'H', 0u8];
diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 66086ea..e134295 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -20,7 +20,11 @@ type HeaderSignature = [u8; 8];
 //const CHUNK_SIZE: u32 = 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 4 * 1024;
+#[cfg(not(siamesedb_small_chunks))]
 const CHUNK_SIZE: u32 = 128 * 1024;
+// for simulations: many chunks with few data.
+#[cfg(siamesedb_small_chunks)]
+const CHUNK_SIZE: u32 = 512;
 const IDX_HEADER_SZ: u64 = 128;
 const IDX_HEADER_SIGNATURE: HeaderSignature = [b's', b'i', b'a', b'm', b'd', b'b', b'T', 0u8];
 const IDX_HEADER_TOP_NODE_OFFSET: u64 = 16;
diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index e20e8aa..e0af02b 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -16,7 +16,11 @@ type HeaderSignature = [u8; 8];
 //const CHUNK_SIZE: u32 = 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 4 * 1024;
+#[cfg(not(siamesedb_small_chunks))]
 const CHUNK_SIZE: u32 = 128 * 1024;
+// for simulations: many chunks with few data.
+#[cfg(siamesedb_small_chunks)]
+const CHUNK_SIZE: u32 = 512;
 const _DAT_HEADER_SZ: u64 = 192;
 const DAT_HEADER_SIGNATURE: HeaderSignature = [b's', b'i', b'a', b'm', b'd', b'b', b'K', 0u8];
 
diff --git a/src/filedb/inner/mod.rs b/src/filedb/inner/mod.rs
index 2c0c954..61e3b01 100644
--- a/src/filedb/inner/mod.rs
+++ b/src/filedb/inner/mod.rs
@@ -10,12 +10,16 @@ pub(crate) mod semtype;
 mod piece;
 mod tr;
 
+#[allow(unexpected_cfgs)]
 mod idx;
+#[allow(unexpected_cfgs)]
 mod key;
+#[allow(unexpected_cfgs)]
 mod val;
 mod vfile;
 
 #[cfg(feature = "htx")]
+#[allow(unexpected_cfgs)]
 mod htx;
 
 #[cfg(feature = "node_cache")]
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0ba0c73..b76d9d2 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -15,7 +15,11 @@ type HeaderSignature = [u8; 8];
 //const CHUNK_SIZE: u32 = 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 1024;
 //const CHUNK_SIZE: u32 = 4 * 4 * 4 * 1024;
+#[cfg(not(siamesedb_small_chunks))]
 const CHUNK_SIZE: u32 = 128 * 1024;
+// for simulations: many chunks with few data.
+#[cfg(siamesedb_small_chunks)]
+const CHUNK_SIZE: u32 = 512;
 const _DAT_HEADER_SZ: u64 = 192;
 const DAT_HEADER_SIGNATURE: HeaderSignature = [b's', b'i', b'a', b'm', b'd', b'b', b'V', 0u8];
 
-- 
2.43.0


From ad2473c1d6cb24fbc73a4a4676217340e71f1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 16/17] fix: count the keys of every index node in the
 statistics

---
 src/filedb/inner/idx.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index e134295..2ef54fb 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1436,6 +1436,12 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
+        //
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1452,11 +1458,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From d69886d8c6791d76bebf46d3a27f3ef5b6a97b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 17/17] fix: refuse to open an open map with another key type

---
 src/filedb/inner/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/filedb/inner/mod.rs b/src/filedb/inner/mod.rs
index 61e3b01..de93a1d 100644
--- a/src/filedb/inner/mod.rs
+++ b/src/filedb/inner/mod.rs
@@ -1,7 +1,7 @@
 use super::super::DbXxxBase;
 use super::{FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString, FileDbParams};
 use std::collections::BTreeMap;
-use std::io::Result;
+use std::io::{Error, ErrorKind, Result};
 use std::path::{Path, PathBuf};
 
 pub(crate) mod dbxxx;
@@ -129,17 +129,33 @@ impl FileDbInner {
 }
 
 impl FileDbInner {
+    // the files of an open map may not have been written yet, they cannot tell its key type.
+    fn check_name_is_free(&self, name: &str) -> Result<()> {
+        if self.db_bytes_map.contains_key(name)
+            || self.db_int_map.contains_key(name)
+            || self.db_string_map.contains_key(name)
+        {
+            return Err(Error::new(
+                ErrorKind::AlreadyExists,
+                format!("the map is already open with another key type: {}", name),
+            ));
+        }
+        Ok(())
+    }
     pub(super) fn create_db_map(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_free(name)?;
         let child: FileDbMapDbString = FileDbMapDbString::open(self.path(), name, params)?;
         let _ = self.db_map_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_bytes(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_free(name)?;
         let child: FileDbMapDbBytes = FileDbMapDbBytes::open(self.path(), name, params)?;
         let _ = self.db_map_bytes_insert(name, child);
         Ok(())
     }
     pub(super) fn create_db_map_dbint(&mut self, name: &str, params: FileDbParams) -> Result<()> {
+        self.check_name_is_free(name)?;
         let child: FileDbMapDbInt = FileDbMapDbInt::open(self.path(), name, params)?;
         let _ = self.db_map_dbint_insert(name, child);
         Ok(())
-- 
2.43.0

