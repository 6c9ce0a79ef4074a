From 7cb6dc3ad1f8499e3335f6434837ecda3310fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 01/24] fix: read unwritten extents as zeros

---
 src/iters/extents.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 4236c8a..474f160 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -19,6 +19,11 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum length (in blocks) of an initialized extent. A greater value
+/// in the extent's length field indicates that the extent is unwritten:
+/// its blocks are allocated, but have not been initialized.
+const MAX_INITIALIZED_EXTENT_LEN: u16 = 32768;
+
 /// Header at the start of a node in an extent tree.
 ///
 /// An extent tree is made up of nodes. Each node may be internal or
@@ -178,7 +183,8 @@ impl Extents {
     //
     // # Returns
     //
-    // * Returns `Ok(Some(_))` if the next entry is within a leaf node.
+    // * Returns `Ok(Some(_))` if the next entry is an initialized extent
+    //   within a leaf node.
     // * Returns `Err` if a hard error occurs (this will be returned by
     //   the iterator, and iteration will be ended on the next
     //   iteration).
@@ -213,6 +219,12 @@ impl Extents {
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
 
+            // The data of an unwritten extent reads as zeros, so skip it;
+            // that is equivalent to treating it as a hole.
+            if ee_len > MAX_INITIALIZED_EXTENT_LEN {
+                return Ok(None);
+            }
+
             let start_block =
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
-- 
2.43.0


From 26da43798c3d1956c2712d7e9d4a090b7ea82736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 02/24] fix: treat null indirect block pointers as holes

---
 src/iters/file_blocks/block_map.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters/file_blocks/block_map.rs b/src/iters/file_blocks/block_map.rs
index c9a316b..722cd90 100644
--- a/src/iters/file_blocks/block_map.rs
+++ b/src/iters/file_blocks/block_map.rs
@@ -42,7 +42,9 @@ use alloc::vec::Vec;
 ///
 /// Indices are only initialized up to the size of the file.
 ///
-/// A block index of zero indicates a hole.
+/// A block index of zero indicates a hole. If the index of an indirect
+/// block is zero, the whole range covered by that indirect block is a
+/// hole.
 pub(super) struct BlockMap {
     fs: Ext4,
 
@@ -191,7 +193,15 @@ struct IndirectBlockIter {
 impl IndirectBlockIter {
     fn new(fs: Ext4, block_index: u32) -> Result<Self, Ext4Error> {
         let mut block = vec![0u8; fs.0.superblock.block_size.to_usize()];
-        fs.read_from_block(FsBlockIndex::from(block_index), 0, &mut block)?;
+        // If the block index is zero, leave the block filled with zeros so
+        // that everything below it is a hole.
+        if block_index != 0 {
+            fs.read_from_block(
+                FsBlockIndex::from(block_index),
+                0,
+                &mut block,
+            )?;
+        }
 
         Ok(Self {
             block,
-- 
2.43.0


From 09a2435def1e7d88bb4177c846389c7fa768931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 03/24] fix: keep File usable after errors and don't iterate
 past the end of the file

When the block iterator returned an error it could not be used any more,
so the next read panicked. Seeking also ignored errors, and iterated up to
2^54 times when seeking far past the end of the file.
---
 src/file.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index c9e6b7c..d578a99 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,7 @@
 
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
-use crate::error::Ext4Error;
+use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::Inode;
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
@@ -35,6 +35,11 @@ pub struct File {
     /// If `None`, either the next block needs to be fetched from the
     /// `file_blocks` iterator, or the end of the file has been reached.
     block_index: Option<FsBlockIndex>,
+
+    /// True if `file_blocks` is not in sync with `position`. This
+    /// happens when the iterator returns an error, after which it cannot
+    /// be used any more. The iterator is recreated on the next read.
+    file_blocks_stale: bool,
 }
 
 impl File {
@@ -65,6 +70,7 @@ impl File {
             file_blocks: FileBlocks::new(fs.clone(), &inode)?,
             inode,
             block_index: None,
+            file_blocks_stale: false,
         })
     }
 
@@ -122,14 +128,17 @@ impl File {
 
         let block_size = self.fs.0.superblock.block_size;
 
+        // If an earlier error left the block iterator unusable, start
+        // over from the current position.
+        if self.file_blocks_stale {
+            self.reset_file_blocks(self.position)?;
+        }
+
         // Get the block to read from.
         let block_index = if let Some(block_index) = self.block_index {
             block_index
         } else {
-            // OK to unwrap: already checked that the position is not at
-            // the end of the file, so there must be at least one more
-            // block to read.
-            let block_index = self.file_blocks.next().unwrap()?;
+            let block_index = self.next_file_block()?;
 
             self.block_index = Some(block_index);
 
@@ -206,18 +215,52 @@ impl File {
     ///
     /// Seeking past the end of the file is allowed.
     pub fn seek_to(&mut self, position: u64) -> Result<(), Ext4Error> {
-        // Reset iteration.
+        self.reset_file_blocks(position)?;
+
+        self.position = position;
+
+        Ok(())
+    }
+
+    /// Get the next block from the `file_blocks` iterator.
+    ///
+    /// This must only be called if there is at least one more block in
+    /// the file.
+    fn next_file_block(&mut self) -> Result<FsBlockIndex, Ext4Error> {
+        match self.file_blocks.next() {
+            Some(Ok(block_index)) => Ok(block_index),
+            Some(Err(err)) => {
+                self.file_blocks_stale = true;
+                Err(err)
+            }
+            None => {
+                // The file size is larger than the block map is able to
+                // represent.
+                self.file_blocks_stale = true;
+                Err(CorruptKind::TooManyBlocksInFile.into())
+            }
+        }
+    }
+
+    /// Reset the `file_blocks` iterator so that the next block it
+    /// produces is the one that contains `position`.
+    fn reset_file_blocks(&mut self, position: u64) -> Result<(), Ext4Error> {
+        self.file_blocks_stale = true;
         self.file_blocks = FileBlocks::new(self.fs.clone(), &self.inode)?;
         self.block_index = None;
 
         // Advance the block iterator by the number of whole blocks in
-        // `position`.
-        let num_blocks = position / self.fs.0.superblock.block_size.to_nz_u64();
-        for _ in 0..num_blocks {
-            self.file_blocks.next();
+        // `position`. This isn't necessary if seeking to the end of the
+        // file or past it, as the iterator won't be used.
+        if position < self.inode.metadata.size_in_bytes {
+            let num_blocks =
+                position / self.fs.0.superblock.block_size.to_nz_u64();
+            for _ in 0..num_blocks {
+                self.next_file_block()?;
+            }
         }
 
-        self.position = position;
+        self.file_blocks_stale = false;
 
         Ok(())
     }
-- 
2.43.0


From 4001c839240f22d66aa0a5be1f4d8a17b1b87e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 04/24] fix: don't panic when resolving a path with more than
 1000 components

---
 src/resolve.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4ae6d68..d8c11c0 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -52,12 +52,6 @@ pub(crate) enum FollowSymlinks {
 /// * `path` does not exist.
 /// * Over 40 symlinks are encountered.
 /// * Path length ever exceeds 4096 bytes.
-///
-/// # Panics
-///
-/// This function panics if path resolution takes over 1000
-/// iterations. This should never occur in practice due to other
-/// restrictions, this is just a hedge against unforeseen bugs.
 pub(crate) fn resolve_path(
     fs: &Ext4,
     path: Path<'_>,
@@ -70,10 +64,6 @@ pub(crate) fn resolve_path(
     // enforce a path length limit, but during path resolution the
     // length can grow quite a bit due to symlinks.
     const MAX_PATH_LEN: usize = 4096;
-    // Maximum number of iterations. This limit should never be reached
-    // in practice, this is just to guard against unknown bugs that
-    // could cause an infinite loop.
-    const MAX_ITERATIONS: usize = 1000;
 
     if !path.is_absolute() {
         return Err(Ext4Error::NotAbsolute);
@@ -91,7 +81,6 @@ pub(crate) fn resolve_path(
     path_dedup_sep(&mut path);
 
     let mut num_symlinks: usize = 0;
-    let mut num_iterations: usize = 0;
 
     // Current inode, starting at the root.
     let mut inode = fs.read_root_inode()?;
@@ -99,17 +88,10 @@ pub(crate) fn resolve_path(
     // Current byte index within the path. Start just after the root `/`.
     let mut index = 1;
 
+    // Each iteration either consumes at least one byte of the path, or
+    // resolves a symlink. The path length and the number of symlinks are
+    // limited, so this loop always terminates.
     while index < path.len() {
-        // Guard against infinite loops. Max iterations should never be
-        // reachable in practice due to the other restrictions
-        // (MAX_SYMLINKS and MAX_PATH_LEN), so panic rather than
-        // returning an error.
-        //
-        // OK to unwrap: never exceeds `MAX_ITERATIONS`, which is much
-        // less than `usize::MAX`.
-        num_iterations = num_iterations.checked_add(1).unwrap();
-        assert!(num_iterations <= MAX_ITERATIONS);
-
         // Find the end of the component. This is either the next '/',
         // or the end of the path.
         let next_sep = find_next_sep(&path, index);
-- 
2.43.0


From c35fe9dc96543e7fa40d30ebe01c1a7a5780cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 05/24] fix: don't panic if an htree node's entry count is too
 large for the block

---
 src/dir_block.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index b7138ee..3b67ee5 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -68,7 +68,7 @@ impl DirBlock<'_> {
         let actual_checksum = if block_type == DirBlockType::Leaf {
             self.calc_leaf_checksum(block)
         } else {
-            self.calc_internal_checksum(block, block_type)
+            self.calc_internal_checksum(block, block_type)?
         };
 
         if actual_checksum.finalize() == expected_checksum {
@@ -105,7 +105,7 @@ impl DirBlock<'_> {
         &self,
         block: &[u8],
         block_type: DirBlockType,
-    ) -> Checksum {
+    ) -> Result<Checksum, Ext4Error> {
         let tail_entry_size = 8;
 
         // OK to unwrap: minimum block size is 1024.
@@ -130,12 +130,21 @@ impl DirBlock<'_> {
             .checked_add(usize::from(count).checked_mul(8).unwrap())
             .unwrap();
 
+        // The entries must not extend past the end of the block.
+        let entries = block.get(..num_bytes).ok_or(
+            CorruptKind::HtreeInternalNodeCountTooLarge {
+                inode: self.dir_inode,
+                count: usize::from(count),
+                num_bytes: block.len(),
+            },
+        )?;
+
         let mut checksum = self.checksum_base.clone();
-        checksum.update(&block[..num_bytes]);
+        checksum.update(entries);
         checksum.update_u32_le(read_u32le(block, tail_entry_offset));
         checksum.update_u32_le(0);
 
-        checksum
+        Ok(checksum)
     }
 
     fn get_block_type(&self, block: &[u8]) -> DirBlockType {
-- 
2.43.0


From af0149d2376201a6d260ad411a9551c76c85a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 06/24] fix: decode the length of directory records that fill a
 64KiB block

---
 src/dir_block.rs |  6 ++++--
 src/dir_entry.rs | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/dir_block.rs b/src/dir_block.rs
index 3b67ee5..9d8642d 100644
--- a/src/dir_block.rs
+++ b/src/dir_block.rs
@@ -9,6 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::checksum::Checksum;
+use crate::dir_entry::decode_rec_len;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::inode::InodeIndex;
 use crate::util::{read_u16le, read_u32le};
@@ -160,8 +161,9 @@ impl DirBlock<'_> {
 
         // Other internal nodes are identified by the first record
         // having a length equal to the whole block.
-        let first_rec_len = read_u16le(block, 4);
-        if first_rec_len == self.fs.0.superblock.block_size {
+        let block_size = self.fs.0.superblock.block_size;
+        let first_rec_len = decode_rec_len(read_u16le(block, 4), block_size);
+        if first_rec_len == block_size {
             DirBlockType::Internal
         } else {
             DirBlockType::Leaf
diff --git a/src/dir_entry.rs b/src/dir_entry.rs
index 36db391..5d3a3d9 100644
--- a/src/dir_entry.rs
+++ b/src/dir_entry.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_size::BlockSize;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::file_type::FileType;
 use crate::format::{BytesDisplay, format_bytes_debug};
@@ -201,6 +202,18 @@ impl TryFrom<&[u8]> for DirEntryNameBuf {
     }
 }
 
+/// Decode the length of a directory record.
+///
+/// The length is stored in 16 bits. A record that fills an entire 64KiB
+/// block doesn't fit in that, so it is represented by a special value.
+pub(crate) fn decode_rec_len(rec_len: u16, block_size: BlockSize) -> usize {
+    if block_size == 65_536 && (rec_len == 0 || rec_len == u16::MAX) {
+        block_size.to_usize()
+    } else {
+        usize::from(rec_len)
+    }
+}
+
 /// Directory entry.
 #[derive(Clone)]
 pub struct DirEntry {
@@ -257,7 +270,7 @@ impl DirEntry {
 
         // Get the full size of the entry.
         let rec_len = read_u16le(bytes, 4);
-        let rec_len = usize::from(rec_len);
+        let rec_len = decode_rec_len(rec_len, fs.0.superblock.block_size);
 
         // Check that the rec_len is somewhat reasonable. Too small a
         // value could indicate the wrong data is being read. And
-- 
2.43.0


From 4854363f42a8e89b8b00ff0aacf6a77370084e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 07/24] fix: follow htree hash collisions that continue in the
 next leaf

When several names with the same hash are split across leaf nodes, the index
marks the continuation by setting the lowest bit of the hash. Lookups only
searched the first leaf, so some names that exist were reported as not found.
---
 src/dir_htree.rs | 197 +++++++++++++++++++++++++++++------------------
 1 file changed, 122 insertions(+), 75 deletions(-)

diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 8b1457c..76c99ed 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -18,6 +18,7 @@ use crate::iters::extents::Extents;
 use crate::iters::file_blocks::FileBlocks;
 use crate::path::PathBuf;
 use crate::util::{read_u16le, read_u32le, usize_from_u32};
+use alloc::collections::BTreeSet;
 use alloc::rc::Rc;
 use alloc::vec;
 
@@ -154,10 +155,18 @@ impl<'a> InternalNode<'a> {
 
     /// Perform a binary search to find the child block index for the
     /// `lookup_hash`.
+    #[cfg(test)]
     fn lookup_block_by_hash(
         &self,
         lookup_hash: DirHash,
     ) -> Option<FileBlockIndex> {
+        let index = self.lookup_index_by_hash(lookup_hash)?;
+        Some(self.get_entry(index).1)
+    }
+
+    /// Perform a binary search to find the index of the last entry whose
+    /// hash is less than or equal to `lookup_hash`.
+    fn lookup_index_by_hash(&self, lookup_hash: DirHash) -> Option<usize> {
         // Left/right entry index.
         let mut left = 0;
         let mut right = self.num_entries().checked_sub(1)?;
@@ -172,8 +181,7 @@ impl<'a> InternalNode<'a> {
             }
         }
 
-        let index = left.checked_sub(1)?;
-        Some(self.get_entry(index).1)
+        left.checked_sub(1)
     }
 }
 
@@ -285,64 +293,111 @@ fn block_from_file_block(
     }
 }
 
-/// Traverse the htree to find the leaf node that might contain `name`.
-///
-/// On success, `block` will contain the leaf node's directory block
-/// data.
-fn find_leaf_node(
-    fs: &Ext4,
-    inode: &Inode,
-    name: DirEntryName<'_>,
-    block: &mut [u8],
-) -> Result<(), Ext4Error> {
-    // Read the htree's hash type from the root block.
-    let hash_alg = HashAlg::from_u8(block[0x1c])?;
+/// Lookup of a name in an htree.
+struct HtreeLookup<'a> {
+    fs: &'a Ext4,
+    inode: &'a Inode,
+    name: DirEntryName<'a>,
+    hash: DirHash,
 
-    // Read the htree's depth from the root block. The depth is the
-    // number of levels in the tree excluding the root and leaf
-    // levels. So for example, a depth of one means there is a root
-    // node, one level of internal nodes, and one level of leaf nodes.
-    let depth = block[0x1e];
+    /// Blocks that have already been searched. In a valid tree each
+    /// block has only one parent.
+    visited: BTreeSet<FileBlockIndex>,
+}
+
+impl HtreeLookup<'_> {
+    /// Search the children of `node`. The `depth` is the number of
+    /// levels of internal nodes below this one.
+    ///
+    /// Usually only one child has to be searched. The exception is when
+    /// entries that have the same hash don't fit in a single leaf. The
+    /// nodes in which such entries are continued are marked by setting
+    /// the lowest bit of the hash in the index; that bit is always clear
+    /// in the hash of a name.
+    fn search_node(
+        &mut self,
+        node: &InternalNode<'_>,
+        depth: u8,
+    ) -> Result<DirEntry, Ext4Error> {
+        let corrupt = CorruptKind::DirEntry(self.inode.index);
+
+        let first = node
+            .lookup_index_by_hash(self.hash)
+            .ok_or(corrupt.clone())?;
+        let last = node.lookup_index_by_hash(self.hash | 1).ok_or(corrupt)?;
+
+        for index in first..=last {
+            match self.search_child(node.get_entry(index).1, depth) {
+                Err(Ext4Error::NotFound) => {}
+                result => return result,
+            }
+        }
+
+        Err(Ext4Error::NotFound)
+    }
+
+    /// Search a child block. If `depth` is zero, the child is a leaf
+    /// node, otherwise it's an internal node.
+    fn search_child(
+        &mut self,
+        relative_block: FileBlockIndex,
+        depth: u8,
+    ) -> Result<DirEntry, Ext4Error> {
+        if !self.visited.insert(relative_block) {
+            return Err(CorruptKind::DirEntry(self.inode.index).into());
+        }
 
-    // Get the node structure from the root block.
-    let root_node = InternalNode::from_root_block(block, inode.index)?;
-
-    let hash = hash_alg.hash(name, &fs.0.superblock.htree_hash_seed);
-    let mut child_block_relative = root_node
-        .lookup_block_by_hash(hash)
-        .ok_or(CorruptKind::DirEntry(inode.index))?;
-
-    // Descend through the tree one level at a time. The first iteration
-    // of the loop goes from the root node to a child. The last
-    // iteration (which may also be the first iteration) will read the
-    // leaf node data into `block`.
-    for level in 0..=depth {
         // Get the absolute block index and read the block's data.
         let block_index =
-            block_from_file_block(fs, inode, child_block_relative)?;
+            block_from_file_block(self.fs, self.inode, relative_block)?;
         let dir_block = DirBlock {
-            fs,
-            dir_inode: inode.index,
+            fs: self.fs,
+            dir_inode: self.inode.index,
             block_index,
             is_first: false,
             has_htree: true,
-            checksum_base: inode.checksum_base.clone(),
+            checksum_base: self.inode.checksum_base.clone(),
         };
-        dir_block.read(block)?;
-
-        // If the block is an internal node, find the next child
-        // block. Otherwise, we've reached a leaf node and there's
-        // nothing more to do.
-        if level != depth {
-            let inner_node =
-                InternalNode::from_non_root_block(block, inode.index)?;
-            child_block_relative = inner_node
-                .lookup_block_by_hash(hash)
-                .ok_or(CorruptKind::DirEntry(inode.index))?;
+        let mut block = vec![0; self.fs.0.superblock.block_size.to_usize()];
+        dir_block.read(&mut block)?;
+
+        if let Some(child_depth) = depth.checked_sub(1) {
+            let node =
+                InternalNode::from_non_root_block(&block, self.inode.index)?;
+            self.search_node(&node, child_depth)
+        } else {
+            self.search_leaf(&block)
         }
     }
 
-    Ok(())
+    /// Do a linear search through the leaf block for the right entry.
+    fn search_leaf(&self, block: &[u8]) -> Result<DirEntry, Ext4Error> {
+        // The entry's `path()` method will not be called, so the value of
+        // the base path does not matter.
+        let path = Rc::new(PathBuf::empty());
+
+        let mut offset_within_block = 0;
+        while offset_within_block < block.len() {
+            let (dir_entry, entry_size) = DirEntry::from_bytes(
+                self.fs.clone(),
+                &block[offset_within_block..],
+                self.inode.index,
+                path.clone(),
+            )?;
+            offset_within_block = offset_within_block
+                .checked_add(entry_size.get())
+                .ok_or(CorruptKind::DirEntry(self.inode.index))?;
+            let Some(dir_entry) = dir_entry else {
+                continue;
+            };
+
+            if dir_entry.file_name() == self.name {
+                return Ok(dir_entry);
+            }
+        }
+
+        Err(Ext4Error::NotFound)
+    }
 }
 
 /// Find a directory entry via a directory htree. The htree is a tree of
@@ -373,36 +428,28 @@ pub(crate) fn get_dir_entry_via_htree(
         return Ok(entry);
     }
 
-    // Find the leaf node that might contain the entry. This will update
-    // `block` to contain the leaf node's block data.
-    find_leaf_node(fs, inode, name, &mut block)?;
-
-    // The entry's `path()` method will not be called, so the value of
-    // the base path does not matter.
-    let path = Rc::new(PathBuf::empty());
+    // Read the htree's hash type from the root block.
+    let hash_alg = HashAlg::from_u8(block[0x1c])?;
 
-    // Do a linear search through the leaf block for the right entry.
-    let mut offset_within_block = 0;
-    while offset_within_block < block.len() {
-        let (dir_entry, entry_size) = DirEntry::from_bytes(
-            fs.clone(),
-            &block[offset_within_block..],
-            inode.index,
-            path.clone(),
-        )?;
-        offset_within_block = offset_within_block
-            .checked_add(entry_size.get())
-            .ok_or(CorruptKind::DirEntry(inode.index))?;
-        let Some(dir_entry) = dir_entry else {
-            continue;
-        };
+    // Read the htree's depth from the root block. The depth is the
+    // number of levels in the tree excluding the root and leaf
+    // levels. So for example, a depth of one means there is a root
+    // node, one level of internal nodes, and one level of leaf nodes.
+    let depth = block[0x1e];
 
-        if dir_entry.file_name() == name {
-            return Ok(dir_entry);
-        }
-    }
+    // Get the node structure from the root block.
+    let root_node = InternalNode::from_root_block(&block, inode.index)?;
 
-    Err(Ext4Error::NotFound)
+    // Descend through the tree to the leaf node (or nodes) that might
+    // contain the entry.
+    let mut lookup = HtreeLookup {
+        fs,
+        inode,
+        name,
+        hash: hash_alg.hash(name, &fs.0.superblock.htree_hash_seed),
+        visited: BTreeSet::new(),
+    };
+    lookup.search_node(&root_node, depth)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6f1c8ec94f5d8a234873231f4d94536a9f1e8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 08/24] fix: don't return zeros from unused cache entries when
 reading block zero

---
 src/block_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_cache.rs b/src/block_cache.rs
index c1b6b2f..a8a3346 100644
--- a/src/block_cache.rs
+++ b/src/block_cache.rs
@@ -103,7 +103,9 @@ impl BlockCache {
 
         let entries = vec![
             CacheEntry {
-                block_index: 0,
+                // Entries start out unused. Mark them with an index that
+                // cannot match any block in the filesystem.
+                block_index: FsBlockIndex::MAX,
                 data: vec![0; opts.block_size.to_usize()].into_boxed_slice(),
             };
             opts.num_entries
-- 
2.43.0


From 3f8fe781c0ea06496239fe235f2d8b9207922c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 09/24] fix: don't panic if the block group descriptor size is
 too small

---
 src/error.rs      | 9 +++++++++
 src/superblock.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index b5efa63..55a6e96 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -218,6 +218,12 @@ pub(crate) enum CorruptKind {
         u32,
     ),
 
+    /// The block group descriptor size is too small.
+    BlockGroupDescriptorSize(
+        /// Block group descriptor size in bytes.
+        u16,
+    ),
+
     /// Invalid block group descriptor.
     BlockGroupDescriptor(
         /// Block group number.
@@ -403,6 +409,9 @@ impl Display for CorruptKind {
             Self::FirstDataBlock(block) => {
                 write!(f, "invalid first data block: {block}")
             }
+            Self::BlockGroupDescriptorSize(size) => {
+                write!(f, "invalid block group descriptor size: {size}")
+            }
             Self::BlockGroupDescriptor(block_group_num) => {
                 write!(f, "block group descriptor {block_group_num} is invalid")
             }
diff --git a/src/superblock.rs b/src/superblock.rs
index da99256..01b18aa 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -113,6 +113,13 @@ impl Superblock {
 
         let block_group_descriptor_size =
             if incompatible_features.contains(IncompatibleFeatures::IS_64BIT) {
+                // 64-bit descriptors are at least 64 bytes.
+                if s_desc_size < 64 {
+                    return Err(CorruptKind::BlockGroupDescriptorSize(
+                        s_desc_size,
+                    )
+                    .into());
+                }
                 s_desc_size
             } else {
                 32
-- 
2.43.0


From 1b182de48cca661bbd3967e4d618aed7949d70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 10/24] fix: don't allocate memory for block groups that don't
 exist

---
 src/block_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/block_group.rs b/src/block_group.rs
index 47be0a7..ab4323b 100644
--- a/src/block_group.rs
+++ b/src/block_group.rs
@@ -12,7 +12,7 @@ use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::features::{IncompatibleFeatures, ReadOnlyCompatibleFeatures};
 use crate::superblock::Superblock;
-use crate::util::{read_u16le, read_u32le, u64_from_hilo, usize_from_u32};
+use crate::util::{read_u16le, read_u32le, u64_from_hilo};
 use alloc::vec;
 use alloc::vec::Vec;
 
@@ -130,8 +130,10 @@ impl BlockGroupDescriptor {
         sb: &Superblock,
         reader: &mut dyn Ext4Read,
     ) -> Result<Vec<Self>, Ext4Error> {
-        let mut block_group_descriptors =
-            Vec::with_capacity(usize_from_u32(sb.num_block_groups));
+        // Don't reserve space up front: the number of block groups comes
+        // from the superblock, so it could be arbitrarily large if the
+        // superblock is corrupt.
+        let mut block_group_descriptors = Vec::new();
 
         for bgd_index in 0..sb.num_block_groups {
             let bgd = Self::read(sb, reader, bgd_index)?;
-- 
2.43.0


From 84ddb26f570a6af3e901a2413ef0e60b98f5bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 11/24] fix: reject block sizes larger than 64KiB

---
 src/superblock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/superblock.rs b/src/superblock.rs
index 01b18aa..98690b1 100644
--- a/src/superblock.rs
+++ b/src/superblock.rs
@@ -79,6 +79,10 @@ impl Superblock {
 
         let block_size = BlockSize::from_superblock_value(s_log_block_size)
             .ok_or(CorruptKind::InvalidBlockSize)?;
+        // The largest block size supported by ext4 is 64KiB.
+        if block_size.to_u32() > 65_536 {
+            return Err(CorruptKind::InvalidBlockSize.into());
+        }
 
         if s_magic != 0xef53 {
             return Err(CorruptKind::SuperblockMagic.into());
-- 
2.43.0


From 2f1d00592b594dfef3800abb6ad08a27c479e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 12/24] fix: support metadata checksums in inodes that only
 store half of the checksum

128-byte inodes don't have room for the upper 16 bits of the checksum. All
inodes were rejected in filesystems created with such inodes.
---
 src/inode.rs | 66 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 15ad801..1575d53 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -117,6 +117,7 @@ pub(crate) struct Inode {
 impl Inode {
     const INLINE_DATA_LEN: usize = 60;
     const L_I_CHECKSUM_LO_OFFSET: usize = 0x74 + 0x8;
+    const I_EXTRA_ISIZE_OFFSET: usize = 0x80;
     const I_CHECKSUM_HI_OFFSET: usize = 0x82;
 
     /// Load an inode from `bytes`.
@@ -137,18 +138,6 @@ impl Inode {
             .into());
         }
 
-        // If metadata checksums are enabled, the inode must be big
-        // enough to include the checksum fields.
-        if ext4.has_metadata_checksums()
-            && data.len() < (Self::I_CHECKSUM_HI_OFFSET + 2)
-        {
-            return Err(CorruptKind::InodeTruncated {
-                inode: index,
-                size: data.len(),
-            }
-            .into());
-        }
-
         let i_mode = read_u16le(data, 0x0);
         let i_uid = read_u16le(data, 0x2);
         let i_size_lo = read_u32le(data, 0x4);
@@ -164,7 +153,11 @@ impl Inode {
         {
             (
                 read_u16le(data, Self::L_I_CHECKSUM_LO_OFFSET),
-                read_u16le(data, Self::I_CHECKSUM_HI_OFFSET),
+                if Self::has_checksum_hi(data) {
+                    read_u16le(data, Self::I_CHECKSUM_HI_OFFSET)
+                } else {
+                    0
+                },
             )
         } else {
             // If metadata checksums aren't enabled then these values
@@ -212,6 +205,18 @@ impl Inode {
         ))
     }
 
+    /// Check if the inode contains the upper 16 bits of the checksum.
+    ///
+    /// That field is not in the first 128 bytes of the inode. It's only
+    /// present if the inode is larger, and the size of the extra fields
+    /// (`i_extra_isize`) is large enough to include it. Otherwise, only
+    /// the lower 16 bits of the checksum are stored.
+    fn has_checksum_hi(data: &[u8]) -> bool {
+        data.len() >= (Self::I_CHECKSUM_HI_OFFSET + 2)
+            && usize::from(read_u16le(data, Self::I_EXTRA_ISIZE_OFFSET))
+                >= (Self::I_CHECKSUM_HI_OFFSET + 2 - 128)
+    }
+
     /// Read an inode.
     pub(crate) fn read(
         ext4: &Ext4,
@@ -238,19 +243,30 @@ impl Inode {
             // Zero'd field.
             checksum.update_u16_le(0);
 
-            // Up to the i_checksum_hi field.
-            checksum.update(
-                &data[Self::L_I_CHECKSUM_LO_OFFSET + 2
-                    ..Self::I_CHECKSUM_HI_OFFSET],
-            );
-
-            // Zero'd field.
-            checksum.update_u16_le(0);
-
-            // Rest of the inode.
-            checksum.update(&data[Self::I_CHECKSUM_HI_OFFSET + 2..]);
+            let remaining = &data[Self::L_I_CHECKSUM_LO_OFFSET + 2..];
+            let has_checksum_hi = Self::has_checksum_hi(&data);
+            if has_checksum_hi {
+                // Up to the i_checksum_hi field.
+                let (before, after) = remaining.split_at(
+                    Self::I_CHECKSUM_HI_OFFSET
+                        - (Self::L_I_CHECKSUM_LO_OFFSET + 2),
+                );
+                checksum.update(before);
+
+                // Zero'd field.
+                checksum.update_u16_le(0);
+
+                // Rest of the inode.
+                checksum.update(&after[2..]);
+            } else {
+                // Rest of the inode.
+                checksum.update(remaining);
+            }
 
-            let actual_checksum = checksum.finalize();
+            let mut actual_checksum = checksum.finalize();
+            if !has_checksum_hi {
+                actual_checksum &= 0xffff;
+            }
             if actual_checksum != expected_checksum {
                 return Err(CorruptKind::InodeChecksum(inode.index).into());
             }
-- 
2.43.0


From e9c43649c72cf7cf9bae84b5db9a03069035c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 13/24] fix: check the depth of extent tree nodes to avoid
 infinite loops

---
 src/iters/extents.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 474f160..462a0a2 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -246,6 +246,12 @@ impl Extents {
             let child_header =
                 NodeHeader::from_bytes(&child_header, self.inode)?;
 
+            // The depth must decrease by one at each level. This also
+            // ensures that there are no cycles in the tree.
+            if child_header.depth.checked_add(1) != Some(item.depth) {
+                return Err(CorruptKind::ExtentDepth(self.inode).into());
+            }
+
             // The checksum is written in the four bytes directly after
             // the node.
             let checksum_offset = child_header.checksum_offset();
-- 
2.43.0


From c46e82eba8441fe19c2ae1178fad9eee0310907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 14/24] fix: check that extent tree entries are in order

Without this check, a small tree in which nodes are used more than once could
contain an enormous number of entries to visit.
---
 src/error.rs         |  6 ++++++
 src/iters/extents.rs | 29 ++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 55a6e96..56a7eee 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -332,6 +332,9 @@ pub(crate) enum CorruptKind {
     /// An extent node's size exceeds the block size.
     ExtentNodeSize(InodeIndex),
 
+    /// Entries in an extent tree are not in order.
+    ExtentOrder(InodeIndex),
+
     /// A directory block's checksum is invalid.
     DirBlockChecksum(InodeIndex),
 
@@ -518,6 +521,9 @@ impl Display for CorruptKind {
             Self::ExtentBlock(inode) => {
                 write!(f, "extent in inode {inode} points to an invalid block")
             }
+            Self::ExtentOrder(inode) => {
+                write!(f, "extent entries of inode {inode} are not in order")
+            }
             Self::ExtentNodeSize(inode) => {
                 write!(
                     f,
diff --git a/src/iters/extents.rs b/src/iters/extents.rs
index 462a0a2..53aff60 100644
--- a/src/iters/extents.rs
+++ b/src/iters/extents.rs
@@ -7,6 +7,7 @@
 // except according to those terms.
 
 use crate::Ext4;
+use crate::block_index::FileBlockIndex;
 use crate::checksum::Checksum;
 use crate::error::{CorruptKind, Ext4Error};
 use crate::extent::Extent;
@@ -19,6 +20,12 @@ use alloc::vec::Vec;
 /// entry).
 const ENTRY_SIZE_IN_BYTES: usize = 12;
 
+/// Maximum depth of a node in an extent tree.
+const MAX_DEPTH: u16 = 5;
+
+/// Maximum number of levels in an extent tree.
+const NUM_LEVELS: usize = 6;
+
 /// Maximum length (in blocks) of an initialized extent. A greater value
 /// in the extent's length field indicates that the extent is unwritten:
 /// its blocks are allocated, but have not been initialized.
@@ -90,7 +97,7 @@ impl NodeHeader {
             return Err(CorruptKind::ExtentMagic(inode).into());
         }
 
-        if eh_depth > 5 {
+        if eh_depth > MAX_DEPTH {
             return Err(CorruptKind::ExtentDepth(inode).into());
         }
 
@@ -159,6 +166,11 @@ pub(crate) struct Extents {
     inode: InodeIndex,
     to_visit: Vec<ToVisitItem>,
     checksum_base: Checksum,
+
+    /// Block (within the file) of the most recently visited entry at each
+    /// depth. This is used to check that the entries are in order.
+    prev_blocks: [Option<FileBlockIndex>; NUM_LEVELS],
+
     is_done: bool,
 }
 
@@ -172,6 +184,7 @@ impl Extents {
                 inode.index,
             )?],
             checksum_base: inode.checksum_base.clone(),
+            prev_blocks: [None; NUM_LEVELS],
             is_done: false,
         })
     }
@@ -213,8 +226,18 @@ impl Extents {
             return Ok(None);
         };
 
+        // The entries at each level of the tree must be in order. This
+        // also ensures that a node that is used more than once is
+        // detected; without that check the number of entries to visit
+        // could be much larger than the size of the tree.
+        let entry_block = read_u32le(entry, 0);
+        let prev_block = &mut self.prev_blocks[usize::from(item.depth)];
+        if prev_block.is_some_and(|prev_block| entry_block <= prev_block) {
+            return Err(CorruptKind::ExtentOrder(self.inode).into());
+        }
+        *prev_block = Some(entry_block);
+
         if item.depth == 0 {
-            let ee_block = read_u32le(entry, 0);
             let ee_len = read_u16le(entry, 4);
             let ee_start_hi = read_u16le(entry, 6);
             let ee_start_low = read_u32le(entry, 8);
@@ -229,7 +252,7 @@ impl Extents {
                 u64_from_hilo(u32::from(ee_start_hi), ee_start_low);
 
             return Ok(Some(Extent {
-                block_within_file: ee_block,
+                block_within_file: entry_block,
                 start_block,
                 num_blocks: ee_len,
             }));
-- 
2.43.0


From 3befeb7c131b03b95147c8149089a499a9e18cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 15/24] fix: don't abort if a file is too large to be read into
 memory

---
 src/inode.rs |  7 +++++++
 src/lib.rs   | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/inode.rs b/src/inode.rs
index 1575d53..ca24604 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -300,6 +300,13 @@ impl Inode {
             PathBuf::try_from(target)
                 .map_err(|_| CorruptKind::SymlinkTarget(self.index).into())
         } else {
+            // Symlink targets cannot be larger than one block.
+            if self.metadata.size_in_bytes
+                > ext4.0.superblock.block_size.to_u64()
+            {
+                return Err(CorruptKind::SymlinkTarget(self.index).into());
+            }
+
             let data = ext4.read_inode_file(self)?;
             PathBuf::try_from(data)
                 .map_err(|_| CorruptKind::SymlinkTarget(self.index).into())
diff --git a/src/lib.rs b/src/lib.rs
index 7f8aceb..23ea592 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -368,22 +368,29 @@ impl Ext4 {
     /// Holes are filled with zero.
     ///
     /// Fails with `FileTooLarge` if the size of the file is too large
-    /// to fit in a [`usize`].
+    /// to fit in a [`usize`], or if there is not enough memory.
     fn read_inode_file(&self, inode: &Inode) -> Result<Vec<u8>, Ext4Error> {
-        // Get the file size and initialize the output vector.
+        // Get the file size and reserve space in the output vector. This
+        // is fallible because the size could be arbitrarily large if the
+        // inode is corrupt.
         let file_size_in_bytes = usize::try_from(inode.metadata.size_in_bytes)
             .map_err(|_| Ext4Error::FileTooLarge)?;
-        let mut dst = vec![0; file_size_in_bytes];
+        let mut dst = Vec::new();
+        dst.try_reserve_exact(file_size_in_bytes)
+            .map_err(|_| Ext4Error::FileTooLarge)?;
 
-        // Use `File` to read the data in chunks.
+        // Use `File` to read the data in chunks of up to one block.
+        let block_size = self.0.superblock.block_size.to_usize();
         let mut file = File::open_inode(self, inode.clone())?;
-        let mut remaining = dst.as_mut();
         loop {
-            let bytes_read = file.read_bytes(remaining)?;
+            let start = dst.len();
+            let remaining = file_size_in_bytes.saturating_sub(start);
+            dst.resize(start.saturating_add(remaining.min(block_size)), 0);
+            let bytes_read = file.read_bytes(&mut dst[start..])?;
+            dst.truncate(start.saturating_add(bytes_read));
             if bytes_read == 0 {
                 break;
             }
-            remaining = &mut remaining[bytes_read..];
         }
         Ok(dst)
     }
-- 
2.43.0


From ae2fdfe7f9d2f6d1b59c3f43890ebdbf89995a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 16/24] fix: let journal revocations cancel writes of earlier
 transactions

---
 src/journal/block_map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 95ca2a3..cd1e1ac 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -81,7 +81,8 @@ struct BlockMapLoader<'a> {
     /// Revoked blocks in the current transaction. When a commit block
     /// is reached, any keys in `uncommitted_block_map` that are in this
     /// revoked list will be deleted instead of committing them to
-    /// `block_map`.
+    /// `block_map`. Revoked keys that were added to `block_map` by an
+    /// earlier transaction are deleted too.
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
@@ -230,11 +231,13 @@ impl<'a> BlockMapLoader<'a> {
     fn process_commit_block(&mut self) -> Result<(), Ext4Error> {
         validate_commit_block_checksum(self.superblock, &self.block)?;
 
-        // Remove any revoked blocks from uncommitted blocks.
+        // Remove any revoked blocks from uncommitted blocks, and from
+        // the blocks of earlier transactions.
         for block_index in &self.revoked_blocks {
             // Don't check the `remove` return value, as a revoked block
             // wasn't necessarily reused later in the transaction.
             self.uncommitted_block_map.remove(block_index);
+            self.block_map.remove(block_index);
         }
         self.revoked_blocks.clear();
 
-- 
2.43.0


From 13ca2edd72a90f34f88c14187f51ff0739beef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 17/24] fix: continue reading the journal at its beginning when
 the log wraps around

---
 src/journal/block_map.rs | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index cd1e1ac..04848f4 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -25,7 +25,7 @@ use crate::util::usize_from_u32;
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
-use core::iter::Skip;
+use core::iter::{Chain, Take};
 
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
@@ -62,6 +62,25 @@ pub(super) fn load_block_map(
     Ok(loader.block_map)
 }
 
+/// Get an iterator over the journal's block indices, starting with the
+/// block at offset `start` within the journal.
+fn journal_blocks_from(
+    fs: &Ext4,
+    journal_inode: &Inode,
+    start: usize,
+) -> Result<FileBlocks, Ext4Error> {
+    let mut iter = FileBlocks::new(fs.clone(), journal_inode)?;
+    for _ in 0..start {
+        let block_index = iter.next().ok_or(CorruptKind::JournalSize)??;
+
+        // The journal can't have holes.
+        if block_index == 0 {
+            return Err(CorruptKind::JournalSize.into());
+        }
+    }
+    Ok(iter)
+}
+
 /// Private struct to help create a `BlockMap` from the journal. This is
 /// essentially an iterator, although it does not implement the actual
 /// iterator trait.
@@ -86,8 +105,10 @@ struct BlockMapLoader<'a> {
     revoked_blocks: Vec<FsBlockIndex>,
 
     /// Iterator over blocks in the journal inode. At construction, the
-    /// iterator is advanced to the journal start block.
-    journal_block_iter: Skip<FileBlocks>,
+    /// iterator is advanced to the journal start block. The log is
+    /// circular, so after the last block of the journal the iterator
+    /// continues with the block following the journal superblock.
+    journal_block_iter: Chain<FileBlocks, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -120,12 +141,20 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
-        // Get an iterator over the journal's block indices.
-        let journal_block_iter = FileBlocks::new(fs.clone(), journal_inode)?;
+        // Get an iterator over the journal's block indices, starting at
+        // the start block.
+        let tail = journal_blocks_from(
+            fs,
+            journal_inode,
+            usize_from_u32(superblock.start_block),
+        )?;
+
+        // The log continues at the block after the journal superblock,
+        // up to (but not including) the start block.
+        let head = journal_blocks_from(fs, journal_inode, 1)?
+            .take(usize_from_u32(superblock.start_block.saturating_sub(1)));
 
-        // Skip forward to the start block.
-        let journal_block_iter =
-            journal_block_iter.skip(usize_from_u32(superblock.start_block));
+        let journal_block_iter = tail.chain(head);
 
         Ok(Self {
             fs,
-- 
2.43.0


From 20b1cb1e6a53c1a4d83cb325e0f7bb9f467e52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 18/24] fix: don't fail to load a filesystem with an empty
 journal

---
 src/journal/block_map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 04848f4..31b6228 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -37,6 +37,11 @@ pub(super) fn load_block_map(
     superblock: &JournalSuperblock,
     journal_inode: &Inode,
 ) -> Result<BlockMap, Ext4Error> {
+    // A start block of zero indicates that the journal is empty.
+    if superblock.start_block == 0 {
+        return Ok(BlockMap::new());
+    }
+
     let mut loader = BlockMapLoader::new(fs, superblock, journal_inode)?;
 
     while let Some(block_index) = loader.journal_block_iter.next() {
-- 
2.43.0


From ed5a9f651739e4750473da55907e120732a2ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 19/24] fix: exclude the header from the size of journal
 revocation tables

---
 src/journal/block_map.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 31b6228..92ca023 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -21,12 +21,17 @@ use crate::journal::revocation_block::{
     read_revocation_block_table, validate_revocation_block_checksum,
 };
 use crate::journal::superblock::JournalSuperblock;
-use crate::util::usize_from_u32;
+use crate::util::{read_u32be, usize_from_u32};
 use alloc::collections::BTreeMap;
 use alloc::vec;
 use alloc::vec::Vec;
 use core::iter::{Chain, Take};
 
+/// Size in bytes of the header at the start of each revocation block:
+/// the regular block header, followed by the size field.
+const REVOCATION_BLOCK_HEADER_SIZE: usize =
+    JournalBlockHeader::SIZE + size_of::<u32>();
+
 /// Map from a block somewhere in the filesystem to a block in the
 /// journal. Both the key and value are absolute block indices.
 pub(super) type BlockMap = BTreeMap<FsBlockIndex, FsBlockIndex>;
@@ -253,6 +258,21 @@ impl<'a> BlockMapLoader<'a> {
 
     fn process_revocation_block(&mut self) -> Result<(), Ext4Error> {
         validate_revocation_block_checksum(self.superblock, &self.block)?;
+
+        // The size field in the block counts all the bytes that are in
+        // use, including the block header and the size field itself.
+        // Exclude those to get the size of the table.
+        let size_field =
+            JournalBlockHeader::SIZE..REVOCATION_BLOCK_HEADER_SIZE;
+        let num_bytes = read_u32be(&self.block, size_field.start);
+        // OK to unwrap: `REVOCATION_BLOCK_HEADER_SIZE` fits in a `u32`.
+        let table_size = num_bytes
+            .checked_sub(u32::try_from(REVOCATION_BLOCK_HEADER_SIZE).unwrap())
+            .ok_or(CorruptKind::JournalRevocationBlockInvalidTableSize(
+                usize_from_u32(num_bytes),
+            ))?;
+        self.block[size_field].copy_from_slice(&table_size.to_be_bytes());
+
         read_revocation_block_table(&self.block, &mut self.revoked_blocks)
     }
 
-- 
2.43.0


From dce6b66a81a501e9b57d4e584a2d140d4e18c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 20/24] fix: support unsigned directory hashes

---
 src/dir_entry_hash.rs | 50 +++++++++++++++++++++++++++++++++++++------
 src/dir_htree.rs      |  6 +++++-
 src/lib.rs            |  9 +++++++-
 3 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 96710f5..5ade3e2 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -37,6 +37,10 @@ use crate::error::{Ext4Error, IncompatibleKind};
 use core::mem;
 use core::num::Wrapping;
 
+/// Flag in the superblock's `s_flags` field indicating that the bytes
+/// of directory entry names are treated as unsigned values when hashed.
+pub(crate) const UNSIGNED_HASH_FLAG: u32 = 0x2;
+
 /// Directory entry hashing algorithm.
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub(crate) enum HashAlg {
@@ -67,10 +71,32 @@ impl HashAlg {
     /// The `seed` value comes from the `s_hash_seed` field of the
     /// superblock. If the `seed` is all zeroes, it's replaced with a
     /// standard default seed.
-    pub(crate) fn hash(
+    pub(crate) fn hash(&self, name: DirEntryName<'_>, seed: &[u32; 4]) -> u32 {
+        self.hash_impl(name, seed, create_hash_block, create_hash_block)
+    }
+
+    /// Same as `hash`, but the bytes of `name` are treated as unsigned
+    /// values. This is used in filesystems that have
+    /// `UNSIGNED_HASH_FLAG` set in the superblock.
+    pub(crate) fn hash_unsigned(
+        &self,
+        name: DirEntryName<'_>,
+        seed: &[u32; 4],
+    ) -> u32 {
+        self.hash_impl(
+            name,
+            seed,
+            create_hash_block_unsigned,
+            create_hash_block_unsigned,
+        )
+    }
+
+    fn hash_impl(
         &self,
         name: DirEntryName<'_>,
         mut seed: &[u32; 4],
+        create_block_8: fn(&[u8]) -> HashBlock<8>,
+        create_block_4: fn(&[u8]) -> HashBlock<4>,
     ) -> u32 {
         // Replace all-zero seed with a standard default seed.
         if seed == &[0; 4] {
@@ -90,7 +116,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<8>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_block_8(chunk);
                     md4_half(&mut state, &inp);
                 }
 
@@ -101,7 +127,7 @@ impl HashAlg {
                 for chunk in
                     name.as_ref().chunks(mem::size_of::<HashBlock<4>>())
                 {
-                    let inp = create_hash_block(chunk);
+                    let inp = create_block_4(chunk);
                     tea(&mut state, &inp);
                 }
 
@@ -214,7 +240,19 @@ fn sign_extend_byte_to_u32(byte: u8) -> u32 {
 }
 
 /// Create the 32-byte block of data that will be hashed.
-fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
+fn create_hash_block<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_impl(src, sign_extend_byte_to_u32)
+}
+
+/// Same as `create_hash_block`, but without sign extension of the bytes.
+fn create_hash_block_unsigned<const N: usize>(src: &[u8]) -> HashBlock<N> {
+    create_hash_block_impl(src, u32::from)
+}
+
+fn create_hash_block_impl<const N: usize>(
+    mut src: &[u8],
+    extend_byte_to_u32: fn(u8) -> u32,
+) -> HashBlock<N> {
     let mut dst = [Wu32::default(); N];
 
     // Get padding value. If `src` is smaller than the block size (4 * N
@@ -228,8 +266,8 @@ fn create_hash_block<const N: usize>(mut src: &[u8]) -> HashBlock<N> {
         // Process up to four bytes of `src`.
         for _ in 0..4 {
             if let Some(src_byte) = src.first() {
-                // Sign extend the byte into a `u32`.
-                let src_u32 = sign_extend_byte_to_u32(*src_byte);
+                // Extend the byte into a `u32`.
+                let src_u32 = extend_byte_to_u32(*src_byte);
                 elem = src_u32.wrapping_add(elem << 8);
 
                 src = &src[1..];
diff --git a/src/dir_htree.rs b/src/dir_htree.rs
index 76c99ed..6209d73 100644
--- a/src/dir_htree.rs
+++ b/src/dir_htree.rs
@@ -446,7 +446,11 @@ pub(crate) fn get_dir_entry_via_htree(
         fs,
         inode,
         name,
-        hash: hash_alg.hash(name, &fs.0.superblock.htree_hash_seed),
+        hash: if fs.0.unsigned_dir_hash {
+            hash_alg.hash_unsigned(name, &fs.0.superblock.htree_hash_seed)
+        } else {
+            hash_alg.hash(name, &fs.0.superblock.htree_hash_seed)
+        },
         visited: BTreeSet::new(),
     };
     lookup.search_node(&root_node, depth)
diff --git a/src/lib.rs b/src/lib.rs
index 23ea592..d6bb435 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,13 +148,14 @@ use block_group::BlockGroupDescriptor;
 use block_index::FsBlockIndex;
 use core::cell::RefCell;
 use core::fmt::{self, Debug, Formatter};
+use dir_entry_hash::UNSIGNED_HASH_FLAG;
 use error::CorruptKind;
 use features::ReadOnlyCompatibleFeatures;
 use inode::{Inode, InodeIndex};
 use journal::Journal;
 use resolve::FollowSymlinks;
 use superblock::Superblock;
-use util::usize_from_u32;
+use util::{read_u32le, usize_from_u32};
 
 pub use dir_entry::{DirEntry, DirEntryName, DirEntryNameError};
 pub use error::{Corrupt, Ext4Error, Incompatible};
@@ -175,6 +176,10 @@ struct Ext4Inner {
     journal: Journal,
     block_cache: RefCell<BlockCache>,
 
+    /// If true, the bytes of directory entry names are hashed as
+    /// unsigned values.
+    unsigned_dir_hash: bool,
+
     /// Reader providing access to the underlying storage.
     ///
     /// Stored as `Box<dyn Ext4Read>` rather than a generic type to make
@@ -211,6 +216,7 @@ impl Ext4 {
             .map_err(Ext4Error::Io)?;
 
         let superblock = Superblock::from_bytes(&data)?;
+        let s_flags = read_u32le(&data, 0x160);
         let block_cache =
             BlockCache::new(superblock.block_size, superblock.blocks_count)?;
 
@@ -225,6 +231,7 @@ impl Ext4 {
             // journal requires a valid `Ext4` object.
             journal: Journal::empty(),
             block_cache: RefCell::new(block_cache),
+            unsigned_dir_hash: s_flags & UNSIGNED_HASH_FLAG != 0,
         }));
 
         // Load the actual journal, if present.
-- 
2.43.0


From 539907c89aea9ab46fe8073d2e98264cab5e04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 21/24] fix: report encrypted files and symlinks instead of
 returning encrypted data

---
 src/file.rs  | 7 ++++++-
 src/inode.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d578a99..80788f7 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -9,7 +9,7 @@
 use crate::Ext4;
 use crate::block_index::FsBlockIndex;
 use crate::error::{CorruptKind, Ext4Error};
-use crate::inode::Inode;
+use crate::inode::{Inode, InodeFlags};
 use crate::iters::file_blocks::FileBlocks;
 use crate::metadata::Metadata;
 use crate::path::Path;
@@ -64,6 +64,11 @@ impl File {
         fs: &Ext4,
         inode: Inode,
     ) -> Result<Self, Ext4Error> {
+        // Reading encrypted data is not supported.
+        if inode.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         Ok(Self {
             fs: fs.clone(),
             position: 0,
diff --git a/src/inode.rs b/src/inode.rs
index ca24604..163b770 100644
--- a/src/inode.rs
+++ b/src/inode.rs
@@ -32,7 +32,7 @@ bitflags! {
         /// File is immutable.
         const IMMUTABLE = 0x10;
 
-        /// Directory is encrypted.
+        /// File, directory, or symlink is encrypted.
         const DIRECTORY_ENCRYPTED = 0x800;
 
         /// Directory has hashed indexes.
@@ -283,6 +283,11 @@ impl Inode {
             return Err(Ext4Error::NotASymlink);
         }
 
+        // Reading encrypted targets is not supported.
+        if self.flags.contains(InodeFlags::DIRECTORY_ENCRYPTED) {
+            return Err(Ext4Error::Encrypted);
+        }
+
         // An empty symlink target is not allowed.
         if self.metadata.size_in_bytes == 0 {
             return Err(CorruptKind::SymlinkTarget(self.index).into());
-- 
2.43.0


From 329ac198f4b045bb501ddeb09a5a20b9d0b51e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 22/24] fix: use the same hash as the kernel for names with the
 largest hash

---
 src/dir_entry_hash.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dir_entry_hash.rs b/src/dir_entry_hash.rs
index 5ade3e2..3260fed 100644
--- a/src/dir_entry_hash.rs
+++ b/src/dir_entry_hash.rs
@@ -41,6 +41,10 @@ use core::num::Wrapping;
 /// of directory entry names are treated as unsigned values when hashed.
 pub(crate) const UNSIGNED_HASH_FLAG: u32 = 0x2;
 
+/// Reserved hash value that marks the end of a directory. Names never have
+/// this hash.
+const HTREE_EOF_HASH: u32 = 0xffff_fffe;
+
 /// Directory entry hashing algorithm.
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub(crate) enum HashAlg {
@@ -135,8 +139,15 @@ impl HashAlg {
             }
         };
 
-        // Finalize the hash.
-        hash & !1
+        // Finalize the hash. The largest value is reserved as an
+        // end-of-directory marker, so it's replaced with the next largest
+        // value.
+        let hash = hash & !1;
+        if hash == HTREE_EOF_HASH {
+            HTREE_EOF_HASH - 2
+        } else {
+            hash
+        }
     }
 }
 
-- 
2.43.0


From 9cba32474532ee680a2a4ec7c4e5373da9e901ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 23/24] fix: allow the journal sequence number to wrap around

---
 src/error.rs             | 6 ------
 src/journal/block_map.rs | 6 ++----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 56a7eee..783ae01 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -269,9 +269,6 @@ pub(crate) enum CorruptKind {
     /// Journal revocation block has an invalid table size.
     JournalRevocationBlockInvalidTableSize(usize),
 
-    /// Journal sequence number overflowed.
-    JournalSequenceOverflow,
-
     /// Journal has a truncated descriptor block. Either it is missing a
     /// tag with the `LAST_TAG` flag set, or the final tag does have
     /// that flag set but there are not enough bytes to read the full
@@ -460,9 +457,6 @@ impl Display for CorruptKind {
                     "journal revocation block table size is invalid: {size}"
                 )
             }
-            Self::JournalSequenceOverflow => {
-                write!(f, "journal sequence number overflowed")
-            }
             Self::JournalDescriptorBlockTruncated => {
                 write!(f, "journal descriptor block is truncated")
             }
diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index 92ca023..adf7a86 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -299,10 +299,8 @@ impl<'a> BlockMapLoader<'a> {
         self.block_map.extend(self.uncommitted_block_map.iter());
         self.uncommitted_block_map.clear();
 
-        self.sequence = self
-            .sequence
-            .checked_add(1)
-            .ok_or(CorruptKind::JournalSequenceOverflow)?;
+        // The sequence number is allowed to wrap around.
+        self.sequence = self.sequence.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0


From 6c1b9df4b2fe03628b44f434c3e815101bfedbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 24/24] fix: don't read past the end of a journal that is
 shorter than its inode

---
 src/journal/block_map.rs  | 12 +++++++++---
 src/journal/superblock.rs | 20 ++++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/journal/block_map.rs b/src/journal/block_map.rs
index adf7a86..7db13f4 100644
--- a/src/journal/block_map.rs
+++ b/src/journal/block_map.rs
@@ -118,7 +118,7 @@ struct BlockMapLoader<'a> {
     /// iterator is advanced to the journal start block. The log is
     /// circular, so after the last block of the journal the iterator
     /// continues with the block following the journal superblock.
-    journal_block_iter: Chain<FileBlocks, Take<FileBlocks>>,
+    journal_block_iter: Chain<Take<FileBlocks>, Take<FileBlocks>>,
 
     /// Current block index.
     block_index: FsBlockIndex,
@@ -151,13 +151,19 @@ impl<'a> BlockMapLoader<'a> {
         superblock: &'a JournalSuperblock,
         journal_inode: &Inode,
     ) -> Result<Self, Ext4Error> {
+        let num_blocks = JournalSuperblock::load_num_blocks(fs, journal_inode)?;
+
         // Get an iterator over the journal's block indices, starting at
-        // the start block.
+        // the start block. Any blocks of the inode past the end of the
+        // journal are not part of the log.
         let tail = journal_blocks_from(
             fs,
             journal_inode,
             usize_from_u32(superblock.start_block),
-        )?;
+        )?
+        .take(usize_from_u32(
+            num_blocks.saturating_sub(superblock.start_block),
+        ));
 
         // The log continues at the block after the journal superblock,
         // up to (but not including) the start block.
diff --git a/src/journal/superblock.rs b/src/journal/superblock.rs
index 9037e63..92a91ea 100644
--- a/src/journal/superblock.rs
+++ b/src/journal/superblock.rs
@@ -25,6 +25,7 @@ const CHECKSUM_TYPE_CRC32C: u8 = 4;
 
 // Field offsets within the superblock.
 const SUPERBLOCK_BLOCKSIZE_OFFSET: usize = 0xc;
+const SUPERBLOCK_MAXLEN_OFFSET: u32 = 0x10;
 const SUPERBLOCK_SEQUENCE_OFFSET: usize = 0x18;
 const SUPERBLOCK_START_OFFSET: usize = 0x1c;
 const SUPERBLOCK_FEATURE_INCOMPAT_OFFSET: usize = 0x28;
@@ -92,6 +93,25 @@ impl JournalSuperblock {
         Ok(superblock)
     }
 
+    /// Load the number of blocks in the journal (including the journal
+    /// superblock) from the journal superblock. This may be less than the
+    /// number of blocks in the journal inode.
+    pub(super) fn load_num_blocks(
+        fs: &Ext4,
+        journal_inode: &Inode,
+    ) -> Result<u32, Ext4Error> {
+        let block_index = FileBlocks::new(fs.clone(), journal_inode)?
+            .next()
+            .ok_or(CorruptKind::JournalSize)??;
+        let mut bytes = [0; size_of::<u32>()];
+        fs.read_from_block(
+            block_index,
+            SUPERBLOCK_MAXLEN_OFFSET,
+            &mut bytes,
+        )?;
+        Ok(u32::from_be_bytes(bytes))
+    }
+
     /// Read superblock data from `bytes`.
     ///
     /// An error is returned if:
-- 
2.43.0

