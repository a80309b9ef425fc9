From 1668925fe5e378ad2546ee0a64419857f8671509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/25] fix: load offset chunks from buffers with any alignment

Layers start at arbitrary positions in an index, so the chunks were often
read through misaligned references (undefined behavior).
---
 src/slice_vector/offsets.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..23d874e 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// packed, since chunks are loaded in place from buffers with any alignment
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,7 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        { self.deltas }.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From 4c9745f9f7bd1745aa468935943ba4de0ba577f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 02/25] fix: load vectors from buffers with any alignment

Vectors::from_bytes is safe and accepts any buffer, but created misaligned
f32 slices (undefined behavior) unless the buffer happened to be aligned.
---
 src/io.rs               | 13 +++++++++++++
 src/slice_vector/mod.rs | 17 ++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..497a383 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::io::{Result, Write};
 
 /// Loads a slice of bytes as a slice of type T
@@ -8,6 +9,18 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Loads a slice of bytes as a slice of type T. Copies the data if it is not aligned for T
+pub unsafe fn load_bytes_as_cow<T: Clone>(bytes: &[u8]) -> Cow<'_, [T]> {
+    if bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0 {
+        return Cow::Borrowed(load_bytes_as(bytes));
+    }
+
+    let ptr = bytes.as_ptr() as *const T;
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+
+    Cow::Owned((0..len).map(|i| ptr.add(i).read_unaligned()).collect())
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..b11266b 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,12 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let width = Self::load_width(buffer);
+        let data: Cow<'a, [T]> = unsafe { crate::io::load_bytes_as_cow(&buffer[U64_LEN..]) };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -210,12 +211,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         }
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
-- 
2.43.0


From a305a6dea1219fae76b340b9fffa98f30f61331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 03/25] fix: check and initialize a node under one lock when
 building in parallel

Another thread could connect to the node between the check and the
initialization, whose link was then lost or duplicated (or, in debug builds,
an assertion failed).
---
 src/index/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..3d669a6 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::try_initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,20 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
-        // Write Lock!
+    /// Sets neighbors for `node` if it does not have any neighbors. Returns `false` otherwise.
+    fn try_initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
+        // Write Lock! (also for the check, since other threads might be connecting to this node)
         let mut node = node.write();
 
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From c8993646f870073e5de5246d843442fbc6e173cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 04/25] fix: do not acquire write_lock recursively in
 RwGranneBuilder::insert_batch

A batch spanning several layers deadlocked if another thread started saving in
between.
---
 src/index/rw/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..cd4ac24 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -100,14 +100,19 @@ where
         self.insert_batch(vec![element]).pop()
     }
 
-    pub fn insert_batch(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
+    pub fn insert_batch(self: &Self, elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
+        // signal that writes will happen
+        let _guard = self.write_lock.read();
+
+        self.insert_batch_internal(elements_to_insert)
+    }
+
+    /// Requires `self.write_lock` to be held (it cannot be acquired recursively).
+    fn insert_batch_internal(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
         if self.elements.read().len() >= self.max_elements {
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
-
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
@@ -174,7 +179,7 @@ where
         };
 
         if !remaining.is_empty() {
-            let ids = self.insert_batch(remaining);
+            let ids = self.insert_batch_internal(remaining);
             inserted.extend(ids.into_iter());
         }
 
-- 
2.43.0


From 8637155fd28fbc3d717f063903d7190e36b4ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 05/25] fix: check capacity of RwGranneBuilder while holding
 the lock

Concurrent inserts that passed the check before the last free slot was taken
added a superfluous layer.
---
 src/index/rw/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index cd4ac24..751bf9c 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -109,13 +109,14 @@ where
 
     /// Requires `self.write_lock` to be held (it cannot be acquired recursively).
     fn insert_batch_internal(self: &Self, mut elements_to_insert: Vec<Elements::InternalElement>) -> Vec<usize> {
-        if self.elements.read().len() >= self.max_elements {
-            return vec![];
-        }
-
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
+
+            if elements.len() >= self.max_elements {
+                return vec![];
+            }
+
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
-- 
2.43.0


From 8ad1c168541a2f4a18145b527690b98b0efb9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/25] fix: search in RwGranneBuilder with a single layer

Search returned no results until the second layer was created.
---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 751bf9c..b4f0fbe 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -201,15 +201,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.is_empty() {
+            return vec![];
         }
+
+        // the index is empty as long as there is only one layer
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From 20fceebcbee01d70129788fac870124617cb8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 07/25] fix: flush buffered writers before reporting success

Errors while writing the last part of the data were silently ignored.
---
 src/elements/embeddings/parsing.rs | 4 ++++
 src/index/io.rs                    | 3 ++-
 src/index/rw/mod.rs                | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..9be05bd 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().expect("Failed to write vectors to disk");
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..9cdb6f9 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,8 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    // errors are ignored when the BufWriter is dropped
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index b4f0fbe..f1869bc 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From cc14f5a1969e447454ad11ec2542ab157454de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 08/25] fix: reorder indexes with less than two layers

Granne::reorder panicked due to an underflow.
---
 src/index/reorder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..ea7b8ad 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,8 +125,12 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() == 0 {
+            return Vec::new();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
+        let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From b3181c7d1aa77c401cdbc0285f457b77f40d2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/25] fix: reorder indexes with fewer indexed elements than
 elements

The graph was reordered before permuting the elements panicked, which left the
index in an inconsistent state.
---
 src/index/reorder.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index ea7b8ad..6886d5e 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -57,7 +57,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     ```
      */
     pub fn reorder(self: &mut Self, show_progress: bool) -> Vec<usize> {
-        let order = self.compute_order(show_progress);
+        let mut order = self.compute_order(show_progress);
 
         let start_time = time::Instant::now();
 
@@ -72,7 +72,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering elements...");
         }
 
-        self.elements.permute(&order);
+        self.permute_elements(&mut order);
 
         if show_progress {
             println!("Reordered index and elements in {} s", start_time.elapsed().as_secs());
@@ -115,7 +115,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
             println!("Reordering elements...");
         }
 
-        self.elements.permute(&order);
+        self.permute_elements(&mut order);
 
         if show_progress {
             println!("Total time: {} s", start_time.elapsed().as_secs());
@@ -124,6 +124,15 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
         order
     }
 
+    /// Permutes the indexed elements. Elements not in the index are not moved.
+    fn permute_elements(self: &mut Self, order: &mut Vec<usize>) {
+        let num_indexed = order.len();
+
+        order.extend(num_indexed..self.elements.len());
+        self.elements.permute(order);
+        order.truncate(num_indexed);
+    }
+
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
         if self.num_layers() == 0 {
             return Vec::new();
-- 
2.43.0


From fb643e3446ae82cebe3f295db601dd74505e7b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 10/25] fix: include the header in the number of bytes written
 for vectors

---
 src/slice_vector/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index b11266b..dea10c8 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -464,8 +464,9 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load();
 
         buffer.write_all(&width.to_le_bytes())?;
+        let bytes_written = std::mem::size_of::<u64>();
 
-        io::write_as_bytes(&data[..], buffer)
+        Ok(bytes_written + io::write_as_bytes(&data[..], buffer)?)
     }
 }
 
@@ -582,12 +583,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 56e79af05d768d544a602262992c125723bc0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 11/25] fix: load empty collections of vectors

A collection written before any vector was added could not be loaded.
---
 src/slice_vector/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index dea10c8..8a2901d 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(Self::is_valid_len(data.len(), width));
 
         Ok(slice_vec)
     }
@@ -124,11 +124,16 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let width = Self::load_width(buffer);
         let data: Cow<'a, [T]> = unsafe { crate::io::load_bytes_as_cow(&buffer[U64_LEN..]) };
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(Self::is_valid_len(data.len(), width));
 
         Self::Memory(data, width)
     }
 
+    /// The width is unspecified (i.e. 0) only as long as there is no data.
+    fn is_valid_len(len: usize, width: usize) -> bool {
+        len == 0 || (width > 0 && len % width == 0)
+    }
+
     /// Returns an iterator over all slices in `self`.
     pub fn iter<'b>(self: &'b Self) -> impl Iterator<Item = &'b [T]>
     where
-- 
2.43.0


From 58e77d5e69d692c28a0b08bb056e7ca281133a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 12/25] fix: extend vectors with an empty collection

Vectors::extend panicked if no vector had been added to the other collection.
---
 src/slice_vector/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 8a2901d..c9f5fc6 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -185,6 +185,11 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load_mut();
         let (other_data, other_width) = other.load();
 
+        if other_width == 0 {
+            // other is empty
+            return;
+        }
+
         if *width == 0 {
             *width = other_width;
         }
-- 
2.43.0


From eb3f2efa3498c1ec40688d0bb745e569bdc06a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 13/25] fix: quantize zero vectors

Dividing by the maximum value of a zero vector produced NaNs.
---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..eea84f4 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|&max_value| *max_value > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From 0d02a3ccf1c73dde6d757db6288fdc7f9d28c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 14/25] fix: write trailing empty shards

Writing shards panicked when the elements did not reach the last shards, e.g. 5
elements and 4 shards.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 9be05bd..da66d7f 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From b68ba9b3d7f4e9e1fc8ba32d2687df7e15380c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/25] fix: search with max_search equal to 0 or larger than
 the index

Searching with 0 panicked and very large values overflowed or allocated memory
proportional to max_search.
---
 src/index/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 3d669a6..58ddd6e 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -1005,11 +1005,16 @@ fn search_for_neighbors<Layer: Graph + ?Sized, Elements: ElementContainer>(
     goal: &Elements::Element,
     max_search: usize,
 ) -> Vec<(usize, NotNan<f32>)> {
+    let max_search = cmp::min(max_search, layer.len());
+    if max_search == 0 {
+        return Vec::new();
+    }
+
     let mut res: max_size_heap::MaxSizeHeap<(NotNan<f32>, usize)> = max_size_heap::MaxSizeHeap::new(max_search); // TODO: should this really be max_search or num_neighbors?
     let mut pq: BinaryHeap<cmp::Reverse<_>> = BinaryHeap::new();
 
     let num_neighbors = 20; //layer.at(0).len();
-    let mut visited = HashSet::with_capacity_and_hasher(max_search * num_neighbors, FxBuildHasher::default());
+    let mut visited = HashSet::with_capacity_and_hasher(cmp::min(max_search * num_neighbors, layer.len()), FxBuildHasher::default());
 
     let distance = elements.dist_to_element(entrypoint, goal);
 
-- 
2.43.0


From 2f4fdf2459cde7adf5e72d433dc42bbc2daee78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 16/25] fix: parse all members of gzip files

Everything after the first member (e.g. of concatenated files) was ignored.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index da66d7f..aae275e 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0


From b7a48babd4b3e9970b7a8fe4a79cb69fcfa27283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 17/25] fix: match parameter names of
 compute_embeddings_and_save_to_disk in Python

The first (positional) parameter is the path to the elements, as documented,
but was called embeddings_path when passed as keyword argument.
---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 3696988..765cb53 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -46,8 +46,8 @@ py_module_initializer!(granne, initgranne, PyInit_granne, |py, m| {
         py_fn!(
             py,
             py_compute_embeddings_and_save_to_disk(
-                embeddings_path: String,
                 elements_path: String,
+                embeddings_path: String,
                 output_path: String,
                 show_progress: bool = true
             )
-- 
2.43.0


From 68ea12a943b864697388acbac95fe4fac552eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 18/25] fix: map the largest component of a vector to 127 when
 quantizing

---
 src/elements/angular_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index eea84f4..40a5a7b 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -36,7 +36,8 @@ impl Vector<'static> {
         let mut v = Vec::with_capacity(s.len());
 
         for x in s {
-            let vi = x * MAX_QVALUE / *max_value;
+            // use f64 for the intermediate values, otherwise rounding could leave the largest value below MAX_QVALUE
+            let vi = (f64::from(*x) * f64::from(MAX_QVALUE) / f64::from(*max_value)) as f32;
             debug_assert!(-MAX_QVALUE - 0.0001 <= vi && vi <= MAX_QVALUE + 0.0001);
             v.push(vi as i8);
         }
-- 
2.43.0


From 4e062b5bba672d20d8d87f52e8d6b83a528f5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 19/25] fix: insert into RwGranneBuilder with layers built with
 another multiplier

---
 src/index/rw/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index f1869bc..3fe089a 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -121,8 +121,9 @@ where
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
-            // check if it is time to create a new layer
-            if elements.len() >= current_layer.len() {
+            // check if it is time to create a new layer (more than one if the index was built with
+            // another layer multiplier)
+            while elements.len() >= current_layer.len() {
                 *current_layer = {
                     // temporarily replace with empty slice vector
                     let current_layer: FixedWidthSliceVector<_> =
@@ -130,10 +131,13 @@ where
                     let mut new_layer = current_layer.clone();
                     prev_layers.push(current_layer);
 
-                    let num_elements_in_layer = compute_num_elements_in_layer(
-                        self.max_elements,
-                        self.config.layer_multiplier,
-                        prev_layers.len(),
+                    let num_elements_in_layer = cmp::max(
+                        new_layer.len(),
+                        compute_num_elements_in_layer(
+                            self.max_elements,
+                            self.config.layer_multiplier,
+                            prev_layers.len(),
+                        ),
                     );
 
                     new_layer.resize(num_elements_in_layer, UNUSED);
-- 
2.43.0


From 1b428768637c9b7ff5b81f197294b5f1653b1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 20/25] fix: insert into RwGranneBuilder from workers of
 another rayon pool without deadlock

---
 src/index/rw/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 3fe089a..466bf3b 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -168,11 +168,31 @@ where
             );
 
             if self.pool.current_num_threads() > 1 {
-                self.pool.install(|| {
-                    ids.par_iter().for_each(|id| {
-                        GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
+                let index_in_parallel = || {
+                    self.pool.install(|| {
+                        ids.par_iter().for_each(|id| {
+                            GranneBuilder::index_element(
+                                &self.config,
+                                &*elements,
+                                &index,
+                                current_layer.as_slice(),
+                                *id,
+                            )
+                        })
                     })
-                });
+                };
+
+                if rayon::current_thread_index().is_some() {
+                    // a worker of another pool would run other jobs of that pool while waiting in
+                    // `install`, and deadlock if one of them needs the locks held here
+                    std::thread::scope(|scope| {
+                        if let Err(panic) = scope.spawn(index_in_parallel).join() {
+                            std::panic::resume_unwind(panic);
+                        }
+                    });
+                } else {
+                    index_in_parallel();
+                }
             } else {
                 ids.iter().for_each(|id| {
                     GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0


From 94ea87ef209ccd48099dd808f265b5109ed3247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 21/25] fix: refuse neighbor lists with missing offsets

---
 src/slice_vector/offsets.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index 23d874e..817e893 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -62,7 +62,8 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     pub fn len(self: &Self) -> usize {
         let (offsets, _data) = self.load();
 
-        offsets.len() - 1
+        // the first offset can only be missing in corrupt data
+        offsets.len().checked_sub(1).expect("Missing offset")
     }
 
     pub fn push(self: &mut Self, new_data: &[T]) {
-- 
2.43.0


From b596467e34e0a41a3112d3f4f01b5f6250ecdb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 22/25] fix: Embeddings.append keeps the words unchanged when
 the embedding is refused

---
 py/src/embeddings.rs   | 11 +++++++----
 py/src/variants/mod.rs |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index c0dc6bb..88f2d58 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -106,12 +106,15 @@ py_class!(pub class Embeddings |py| {
     ///     The word or label representing the vector
     ///
     def append(&self, embedding: Vec<f32>, word: String) -> PyResult<bool> {
-        let inserted = self.words(py).borrow_mut().push(word);
-        if inserted {
-            self.embeddings(py).borrow_mut().push_embedding(&embedding);
+        let mut words = self.words(py).borrow_mut();
+        if words.contains(&word) {
+            return Ok(false);
         }
 
-        Ok(inserted)
+        // refuses embeddings of another dimension, and should then leave the words unchanged
+        self.embeddings(py).borrow_mut().push_embedding(&embedding);
+
+        Ok(words.push(word))
     }
 
     /// Saves the embeddings (vectors) and words/labels to disk.
diff --git a/py/src/variants/mod.rs b/py/src/variants/mod.rs
index 7cc8310..8fbf2d8 100644
--- a/py/src/variants/mod.rs
+++ b/py/src/variants/mod.rs
@@ -57,6 +57,10 @@ impl WordDict {
             .collect()
     }
 
+    pub fn contains(self: &Self, word: &str) -> bool {
+        self.word_to_id.contains_key(word)
+    }
+
     pub fn push(self: &mut Self, word: String) -> bool {
         match self.word_to_id.entry(word.clone()) {
             hash_map::Entry::Vacant(e) => e.insert(self.id_to_word.len()),
-- 
2.43.0


From 93268921ecf6fbfd293fb5ffafe0728f8029f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 23/25] fix: saving from Python replaces the file instead of
 truncating the one the data is mapped from

---
 py/src/embeddings.rs     |  8 ++------
 py/src/lib.rs            | 43 ++++++++++++++++++++++++++++++++--------
 py/src/variants/index.rs |  6 ++----
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index 88f2d58..a27a775 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -127,9 +127,7 @@ py_class!(pub class Embeddings |py| {
 
     /// Saves the embeddings (vectors) to disk.
     def save_embeddings(&self, path: &str) -> PyResult<PyObject> {
-        let mut file = std::fs::File::create(path)
-            .expect("Could not create file!");
-        self.embeddings(py).borrow().write_embeddings(&mut file)
+        crate::save_to_file(path, |file| self.embeddings(py).borrow().write_embeddings(file).map(|_| {}))
             .expect("Could not write embeddings!");
 
         Ok(py.None())
@@ -137,10 +135,8 @@ py_class!(pub class Embeddings |py| {
 
     /// Saves the words/labels to disk.
     def save_words(&self, path: &str) -> PyResult<PyObject> {
-        let mut file = std::fs::File::create(path).expect("Could not create file!");
-
         // todo what format?
-        self.words(py).borrow().write(&mut file).expect("Could not write words!");
+        crate::save_to_file(path, |file| self.words(py).borrow().write(file)).expect("Could not write words!");
 
         Ok(py.None())
     }
diff --git a/py/src/lib.rs b/py/src/lib.rs
index 765cb53..13b4adf 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -619,6 +619,37 @@ trait PyGranne: AsIndex + Reorder + SaveIndex {
     }
 }
 
+/// Lets `write` write a new file and moves that to `path`. An existing file at `path` must not be truncated, since the
+/// data to save may be memory-mapped from it.
+fn save_to_file(
+    path: impl AsRef<Path>,
+    write: impl FnOnce(&mut std::fs::File) -> std::io::Result<()>,
+) -> std::io::Result<()> {
+    use std::fs;
+
+    let path = fs::canonicalize(path.as_ref()).unwrap_or_else(|_| path.as_ref().to_path_buf());
+    let existing = fs::metadata(&path).ok();
+
+    if existing.as_ref().map_or(false, |existing| !existing.is_file()) {
+        // e.g. a pipe, which cannot be replaced
+        return write(&mut fs::File::create(&path)?);
+    }
+
+    let mut temporary_path = path.clone().into_os_string();
+    temporary_path.push(format!(".{}.tmp", std::process::id()));
+
+    let result = fs::File::create(&temporary_path)
+        .and_then(|mut file| write(&mut file))
+        .and_then(|_| existing.map_or(Ok(()), |existing| fs::set_permissions(&temporary_path, existing.permissions())))
+        .and_then(|_| fs::rename(&temporary_path, &path));
+
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary_path);
+    }
+
+    result
+}
+
 trait SaveIndex {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()>;
 
@@ -627,25 +658,21 @@ trait SaveIndex {
 
 impl<'a, Elements: granne::ElementContainer + granne::Writeable + Sync> SaveIndex for granne::Granne<'a, Elements> {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.write_index(&mut file)
+        save_to_file(path, |file| self.write_index(file))
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.write_elements(&mut file).map(|_| {})
+        save_to_file(path, |file| self.write_elements(file).map(|_| {}))
     }
 }
 
 impl<Elements: granne::ElementContainer + granne::Writeable + Sync> SaveIndex for granne::GranneBuilder<Elements> {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.write_index(&mut file)
+        save_to_file(path, |file| self.write_index(file))
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.write_elements(&mut file).map(|_| {})
+        save_to_file(path, |file| self.write_elements(file).map(|_| {}))
     }
 }
 
diff --git a/py/src/variants/index.rs b/py/src/variants/index.rs
index 6bff105..1490c0b 100644
--- a/py/src/variants/index.rs
+++ b/py/src/variants/index.rs
@@ -77,13 +77,11 @@ impl crate::Reorder for WordEmbeddingsGranne {
 
 impl crate::SaveIndex for WordEmbeddingsGranne {
     fn save_index(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.index.write_index(&mut file)
+        crate::save_to_file(path, |file| self.index.write_index(file))
     }
 
     fn save_elements(self: &Self, path: &str) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        self.index.write_elements(&mut file).map(|_| {})
+        crate::save_to_file(path, |file| self.index.write_elements(file).map(|_| {}))
     }
 }
 
-- 
2.43.0


From 9743840d2de2fa8ffdb3a115138c3a0651e9bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 24/25] fix: words made of digits were taken for ids by
 Embeddings.get_embedding, dist and dists

---
 py/src/embeddings.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index a27a775..2edfa54 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -62,13 +62,13 @@ py_class!(pub class Embeddings |py| {
     /// Returns the (non-normalized) embedding for a word/sentence or id/list of ids.
     def get_embedding(&self, input: &PyObject) -> PyResult<Vec<f32>>
     {
-        let idxs: Vec<usize> = if let Ok(idx) = usize::extract(py, input) {
+        // strings first, since a string of digits can be extracted as an integer
+        let idxs: Vec<usize> = if let Ok(words) = String::extract(py, input) {
+            self.words(py).borrow().get_word_ids(&words)
+        } else if let Ok(idx) = usize::extract(py, input) {
             vec![idx]
-        } else if let Ok(data) = Vec::<usize>::extract(py, input) {
-            data
         } else {
-            let words = String::extract(py, input)?;
-            self.words(py).borrow().get_word_ids(&words)
+            Vec::<usize>::extract(py, input)?
         };
 
         Ok(self.embeddings(py).borrow().create_embedding(&idxs))
-- 
2.43.0


From dbf997b1ab5a90a770a25e708c9df8e227e2a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 25/25] fix: reordering ignored which element of the first
 layer is closest

order_inv was never filled for the elements of the first layer, so all of
them counted as position 0: an index with two layers was not reordered at
all, and in deeper ones all elements closest to an element of the first
layer were mixed.
---
 src/index/reorder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index 6886d5e..f4662fb 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -140,6 +140,8 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
 
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
         let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
+        // the first layer keeps its order
+        order_inv[..order.len()].copy_from_slice(&order);
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0

