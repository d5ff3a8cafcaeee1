From 5b668d34f4e3cca95af781d9a7ea6f8aaf8c4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 01/28] hook: thresholds, fan-out and private sync entry point
 reachable under --cfg tsfile_sim

---
 tsfile-writer/src/lib.rs                  |  2 +
 tsfile-writer/src/sync/sync_sender.rs     | 18 +++++++
 tsfile-writer/src/writer/chunk_writer.rs  | 44 ++++++++++++++---
 tsfile-writer/src/writer/mod.rs           |  2 +
 tsfile-writer/src/writer/sim_hooks.rs     | 60 +++++++++++++++++++++++
 tsfile-writer/src/writer/tsfile_writer.rs | 29 ++++++++---
 6 files changed, 143 insertions(+), 12 deletions(-)
 create mode 100644 tsfile-writer/src/writer/sim_hooks.rs

diff --git a/tsfile-writer/src/lib.rs b/tsfile-writer/src/lib.rs
index ab85dcf..bce7e0e 100644
--- a/tsfile-writer/src/lib.rs
+++ b/tsfile-writer/src/lib.rs
@@ -80,6 +80,8 @@
 //! writer.write("d2", "s1", 1, IoTDBValue::LONG(14));
 //! writer.write("d2", "s2", 1, IoTDBValue::FLOAT(14.0 as f32));
 //! ```
+#![allow(unexpected_cfgs)] // `tsfile_sim` is set via RUSTFLAGS by the simulator only
+
 #[cfg(feature = "sync_sender")]
 pub mod sync;
 pub mod writer;
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..1a11e02 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -240,6 +240,24 @@ impl
     }
 }
 
+/// Hook for the deterministic simulator: makes the (private) transfer reachable.
+#[cfg(tsfile_sim)]
+impl
+    SyncSender<
+        TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
+        TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
+    >
+{
+    pub fn sim_sync(
+        &mut self,
+        filename: &str,
+        storage_group: &str,
+        schema: Schema,
+    ) -> Result<(), SyncSenderError> {
+        self.sync(filename, storage_group, schema)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..cd5314d 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -17,6 +17,38 @@ const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 7989;
 const PAGE_SIZE_THRESHOLD: u32 = 65536;
 const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 1500;
 
+fn max_number_of_points_in_page() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().max_points_in_page {
+        return v;
+    }
+    MAX_NUMBER_OF_POINTS_IN_PAGE
+}
+
+fn value_count_for_first_page_check() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().first_page_check {
+        return v;
+    }
+    VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK
+}
+
+fn page_size_threshold() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().page_size_threshold {
+        return v;
+    }
+    PAGE_SIZE_THRESHOLD
+}
+
+fn minimum_record_count_for_check() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().minimum_page_check {
+        return v;
+    }
+    MINIMUM_RECORD_COUNT_FOR_CHECK
+}
+
 struct PageWriter {
     time_encoder: LongTs2DiffEncoder,
     value_encoder: Box<dyn Encoder>,
@@ -113,7 +145,7 @@ impl ChunkWriter {
             page_buffer: vec![],
             num_pages: 0,
             first_page_statistics: None,
-            value_count_in_one_page_for_next_check: VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK,
+            value_count_in_one_page_for_next_check: value_count_for_first_page_check(),
             size_without_statistics: 0,
         }
     }
@@ -306,25 +338,25 @@ impl ChunkWriter {
             return;
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
-        if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
+        if page_writer.point_number > max_number_of_points_in_page() {
             self.write_page_to_buffer();
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
-            if current_page_size > PAGE_SIZE_THRESHOLD {
+            if current_page_size > page_size_threshold() {
                 log::trace!(
             "enough size, write page {}, pageSizeThreshold:{}, currentPateSize:{}, valueCountInOnePage:{}",
             self.measurement_id.clone(),
-            PAGE_SIZE_THRESHOLD,
+            page_size_threshold(),
             current_page_size,
             page_writer.point_number);
                 self.write_page_to_buffer();
-                self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
+                self.value_count_in_one_page_for_next_check = minimum_record_count_for_check();
             } else {
                 // valueCountInOnePageForNextCheck =
                 //     (int) (((float) pageSizeThreshold / currentPageSize) * pageWriter.getPointNumber());
                 self.value_count_in_one_page_for_next_check =
-                    ((PAGE_SIZE_THRESHOLD as f32) / (current_page_size as f32)
+                    ((page_size_threshold() as f32) / (current_page_size as f32)
                         * (page_writer.point_number as f32)) as u32;
             }
         }
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..e46073f 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -98,6 +98,8 @@ pub mod errors;
 mod group_writer;
 mod murmur128;
 pub mod schema;
+#[cfg(tsfile_sim)]
+pub mod sim_hooks;
 mod statistics;
 mod test;
 pub mod test_utils;
diff --git a/tsfile-writer/src/writer/sim_hooks.rs b/tsfile-writer/src/writer/sim_hooks.rs
new file mode 100644
index 0000000..24406fd
--- /dev/null
+++ b/tsfile-writer/src/writer/sim_hooks.rs
@@ -0,0 +1,60 @@
+//! Hooks for the deterministic simulator. Only compiled with `--cfg tsfile_sim`.
+//!
+//! They make internal size thresholds configurable (per thread), give access to the
+//! generic constructor and to the configuration. Nothing here is part of the public API.
+use crate::writer::errors::TsFileError;
+use crate::writer::ts_file_config::TsFileConfig;
+use crate::writer::tsfile_writer::TsFileWriter;
+use crate::writer::{PositionedWrite, Schema};
+use std::cell::Cell;
+
+/// Overrides for internal thresholds, `None` means "as shipped"
+#[derive(Clone, Copy, Default, Debug)]
+pub struct Knobs {
+    pub chunk_group_size_threshold: Option<u32>,
+    pub first_mem_check: Option<u32>,
+    pub page_size_threshold: Option<u32>,
+    pub max_points_in_page: Option<u32>,
+    pub first_page_check: Option<u32>,
+    pub minimum_page_check: Option<u32>,
+}
+
+impl Knobs {
+    const SHIPPED: Knobs = Knobs {
+        chunk_group_size_threshold: None,
+        first_mem_check: None,
+        page_size_threshold: None,
+        max_points_in_page: None,
+        first_page_check: None,
+        minimum_page_check: None,
+    };
+}
+
+thread_local! {
+    static KNOBS: Cell<Knobs> = const { Cell::new(Knobs::SHIPPED) };
+}
+
+pub fn set_knobs(knobs: Knobs) {
+    KNOBS.with(|k| k.set(knobs));
+}
+
+pub fn knobs() -> Knobs {
+    KNOBS.with(|k| k.get())
+}
+
+/// Configuration with a non-default fan-out of the index tree
+pub fn config(max_degree_of_index_node: usize) -> TsFileConfig {
+    TsFileConfig {
+        max_degree_of_index_node,
+        ..Default::default()
+    }
+}
+
+/// Writer over an arbitrary sink
+pub fn writer_over<'a, T: PositionedWrite>(
+    schema: Schema<'a>,
+    sink: T,
+    config: TsFileConfig,
+) -> Result<TsFileWriter<'a, T>, TsFileError> {
+    TsFileWriter::new_from_writer(schema, sink, config)
+}
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..e693993 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -12,6 +12,23 @@ use std::collections::{BTreeMap, HashMap};
 use std::fs::{create_dir_all, File};
 
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
+const FIRST_MEM_CHECK: u32 = 100;
+
+fn chunk_group_size_threshold() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().chunk_group_size_threshold {
+        return v;
+    }
+    CHUNK_GROUP_SIZE_THRESHOLD_BYTE
+}
+
+fn first_mem_check() -> u32 {
+    #[cfg(tsfile_sim)]
+    if let Some(v) = crate::writer::sim_hooks::knobs().first_mem_check {
+        return v;
+    }
+    FIRST_MEM_CHECK
+}
 
 /// Class defined to hold a datapoint for writing into a given device.
 /// Consists of a measurement_id and a value
@@ -173,13 +190,13 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             log::trace!("Memcount calculated: {}", mem_size);
             log::trace!(
                 "{:.2?}% - {} / {} for flushing",
-                mem_size as f64 / CHUNK_GROUP_SIZE_THRESHOLD_BYTE as f64 * 100.0,
+                mem_size as f64 / chunk_group_size_threshold() as f64 * 100.0,
                 mem_size,
-                CHUNK_GROUP_SIZE_THRESHOLD_BYTE
+                chunk_group_size_threshold()
             );
-            if mem_size > CHUNK_GROUP_SIZE_THRESHOLD_BYTE {
+            if mem_size > chunk_group_size_threshold() {
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
-                    * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
+                    * chunk_group_size_threshold() as u64
                     / mem_size as u64)
                     as u32;
                 return self.flush_all_chunk_groups();
@@ -187,7 +204,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // println!("Record Count: {}, CHUNK_GROUP_SIZE_THRESHOLD_BYTE: {}, memsize: {}", self.record_count_for_next_mem_check, CHUNK_GROUP_SIZE_THRESHOLD_BYTE, mem_size);
                 // in the java impl there can be an overflow...
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
-                    * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
+                    * chunk_group_size_threshold() as u64
                     / mem_size as u64)
                     as u32;
                 log::trace!(
@@ -339,7 +356,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
-            record_count_for_next_mem_check: 100,
+            record_count_for_next_mem_check: first_mem_check(),
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
-- 
2.43.0


From 402fc64290084ca921448742b4705da1a78f58e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 02/28] fix: bloom filter: round the number of bytes up

---
 tsfile-writer/src/writer/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e46073f..64d4236 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -737,11 +737,7 @@ impl BloomFilter {
     }
 
     fn serialize_bits(&self) -> Vec<u8> {
-        let number_of_bytes = if self.bit_set.len() % 8 == 0 {
-            self.bit_set.len() / 8
-        } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
-        };
+        let number_of_bytes = (self.bit_set.len() + 7) / 8;
 
         let mut result = vec![0_u8; number_of_bytes];
 
-- 
2.43.0


From fa9723ef87066485a67b266b4231cec729731797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:13 +0000
Subject: [PATCH 03/28] fix: bloom filter hash: multiply and add with
 wrap-around as the algorithm requires

---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From a24748fe7e4bf0ca76975be5dcdae8c54c1b1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:13 +0000
Subject: [PATCH 04/28] fix: bloom filter: a hash of i32::MIN has no i32
 magnitude

---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 64d4236..8ba3244 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -671,7 +671,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        (self._murmur_hash(value, self.seed).unsigned_abs() % self.cap as u32) as usize
     }
 }
 
-- 
2.43.0


From f654883e5c736ec8defd837d1124ab8c13f9437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 05/28] fix: TS_2DIFF: differences of distant values wrap
 around

---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..5f4b108 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = <$type>::wrapping_sub(value, self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 1bb2febc867107b2d56ede2f867ea91ed5df8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 06/28] fix: index devices in order instead of in the random
 order of a hash map

---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 8ba3244..8a557bf 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -509,7 +509,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From a7e02e43b08364f8bb49861e745e90bdb2fbca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 07/28] fix: build the levels of the metadata index above the
 first node

Inner nodes were never written and devices beyond one node panicked.
---
 tsfile-writer/src/writer/mod.rs | 92 +++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 8a557bf..e158a2f 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -330,6 +330,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -349,6 +350,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write(&[byte]);
 
@@ -429,9 +431,8 @@ impl MetadataIndexNode {
         measurement_metadata_index_queue.push(current_index_node.clone());
     }
 
-    #[allow(unused_variables)]
     fn generate_root_node(
-        mut measurement_metadata_index_queue: Vec<MetadataIndexNode>,
+        mut metadata_index_queue: Vec<MetadataIndexNode>,
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
@@ -456,51 +457,30 @@ impl MetadataIndexNode {
         //   queueSize = metadataIndexNodeQueue.size();
         // }
         // return metadataIndexNodeQueue.poll();
-        // TODO
-        let mut queue_size = measurement_metadata_index_queue.len();
-        let mut metadata_index_node;
-        let mut current_index_metadata = MetadataIndexNode::new(node_type.clone());
-
-        while queue_size != 1 {
-            for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
-                if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+        while metadata_index_queue.len() != 1 {
+            let mut current_index_node = MetadataIndexNode::new(node_type.clone());
+            for metadata_index_node in std::mem::take(&mut metadata_index_queue) {
+                if current_index_node.is_full(config) {
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_node,
+                        &mut metadata_index_queue,
+                        file,
+                    );
+                    current_index_node = MetadataIndexNode::new(node_type.clone());
                 }
-                // ...
-                let name = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("This should not happen!")
-                    }
-                    Some(node) => node.name.clone(),
-                };
-                current_index_metadata.children.push(MetadataIndexEntry {
-                    name,
+                current_index_node.children.push(MetadataIndexEntry {
+                    name: metadata_index_node.children[0].name.clone(),
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file);
             }
-            // ...
             Self::add_current_index_node_to_queue(
-                &mut current_index_metadata,
-                &mut measurement_metadata_index_queue,
+                &mut current_index_node,
+                &mut metadata_index_queue,
                 file,
             );
-            current_index_metadata = MetadataIndexNode {
-                children: vec![],
-                end_offset: 0,
-                node_type: node_type.clone(),
-            };
-            queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        metadata_index_queue.remove(0)
     }
 
     #[allow(unused_variables)]
@@ -574,7 +554,39 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (s, value) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: s,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+        let mut device_metadata_index_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        device_metadata_index_node.end_offset = file.get_position() as usize;
+        device_metadata_index_node
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
-- 
2.43.0


From f8a882e8c2cc865ad8716ee2f853c0fe8f1c2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 08/28] fix: out of order points stay refused after a chunk
 group was flushed

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index e693993..095da7d 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -259,6 +259,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         self.record_count = 0;
         // Reset Group Writers
         let schema = self.schema.clone();
+        // but not the order of time: it is kept over all chunk groups of a device
+        let last_time_map = &self.non_aligned_timeseries_last_time_map;
         self.group_writers = schema
             .measurement_groups
             .into_iter()
@@ -282,7 +284,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map: last_time_map.get(path).cloned().unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From c0ecba2c8619cb098005b3a5b0016d1f121352bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 09/28] fix: refuse a value of the wrong type or encoding with
 an error

It reached a todo!() after the page was half changed, or an unwrap().
---
 tsfile-writer/src/writer/chunk_writer.rs | 7 +++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index cd5314d..28e305b 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -314,6 +314,13 @@ impl ChunkWriter {
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
         // self.statistics.update(timestamp, &value);
+        // Refuse a value of another type before anything is touched
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         match &mut self.current_page_writer {
             None => {
                 // Create a page
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 7e37cb2e722d45d483bb4ed0a87c3429fa9de51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 10/28] fix: count the points written by a write_many that
 fails midway

Uncounted, they were dropped on close when nothing else was written.
---
 tsfile-writer/src/writer/group_writer.rs  |  9 ++++++---
 tsfile-writer/src/writer/tsfile_writer.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..76829ea 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,15 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
+    ) -> (u32, Result<(), TsFileError>) {
         let mut records = 0;
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            match self.write(dp.measurement_id, timestamp, dp.value) {
+                Ok(records_written) => records += records_written,
+                Err(e) => return (records, Err(e)),
+            }
         }
-        Ok(records)
+        (records, Ok(()))
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 095da7d..89e41fe 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -173,15 +173,17 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        match self.group_writers.get_mut(device) {
+        let result = match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
+                // Points before the first refused one are written and have to be counted
+                let (records_written, result) = group.write_many(timestamp, values);
                 self.record_count += records_written;
+                result
             }
             None => return Err(TsFileError::IllegalState { source: None }),
-        }
+        };
         self.check_memory_size_and_may_flush_chunks();
-        Ok(())
+        result
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-- 
2.43.0


From b389858dfdadee4e62bdea9d10b105b3edf9ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 11/28] fix: a sink may take only a part of an index node at
 once

---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e158a2f..7518113 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -352,7 +352,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte]);
 
         Ok(())
     }
@@ -373,7 +373,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes());
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -403,7 +403,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes());
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From 198ac8d0fcd690c38d03d8ed7359a09e24d45a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 12/28] fix: statistics: keep the first value of a point at the
 maximal timestamp

---
 tsfile-writer/src/writer/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..bf4587c 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,7 +136,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
@@ -155,7 +155,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-- 
2.43.0


From acbb584ce81b14cf9bcd86f02020e7454d1d70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 13/28] fix: statistics: infinite values count for minimum and
 maximum

---
 tsfile-writer/src/writer/statistics.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index bf4587c..d2a27eb 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -120,14 +120,14 @@ impl StatisticsStruct<f32, f64> {
 }
 
 macro_rules! implement_statistics {
-    ( $type:ty, $sum:ty ) => {
+    ( $type:ty, $sum:ty, $greatest:expr, $least:expr ) => {
         impl StatisticsStruct<$type, $sum> {
             pub(crate) fn new() -> StatisticsStruct<$type, $sum> {
                 StatisticsStruct {
                     ts_first: i64::MAX,
                     ts_last: i64::MIN,
-                    min_value: <$type>::MAX,
-                    max_value: <$type>::MIN,
+                    min_value: $greatest,
+                    max_value: $least,
                     first_value: 0 as $type,
                     last_value: 0 as $type,
                     count: 0,
@@ -193,8 +193,8 @@ macro_rules! implement_statistics {
     };
 }
 
-implement_statistics!(i32, i64);
-implement_statistics!(i64, f64);
-implement_statistics!(f32, f64);
+implement_statistics!(i32, i64, i32::MAX, i32::MIN);
+implement_statistics!(i64, f64, i64::MAX, i64::MIN);
+implement_statistics!(f32, f64, f32::INFINITY, f32::NEG_INFINITY);
 // TODO Implement / use
 // implement_statistics!(f64);
-- 
2.43.0


From e4ecf8e0f83301bcfd5f0cfd29dc6c03ff823db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 14/28] fix: do not keep the caller's measurement id beyond the
 write

The C interface hands in memory that the caller may free or reuse.
---
 tsfile-writer/src/writer/group_writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 76829ea..e7b09e0 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -102,7 +102,10 @@ impl<'a> GroupWriter<'a> {
                 });
             }
         };
-        self.last_time_map.insert(measurement_id, timestamp);
+        // Remember the name from the schema, the one given may be gone after this call (C interface)
+        if let Some((&series_id, _)) = self.chunk_writers.get_key_value(measurement_id) {
+            self.last_time_map.insert(series_id, timestamp);
+        }
         Ok(record_count)
     }
 
@@ -111,10 +114,7 @@ impl<'a> GroupWriter<'a> {
         measurement_id: &'a str,
         timestamp: i64,
     ) -> Result<(), TsFileError> {
-        if !self.last_time_map.contains_key(measurement_id) {
-            self.last_time_map.insert(measurement_id, -1);
-        }
-        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {
+        if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {
             return Err(TsFileError::OutOfOrderData);
         }
         Ok(())
-- 
2.43.0


From a225b47fe9d3f8192b4f01e9054e422f52bf5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 15/28] fix: names with dots: keep device and measurement apart
 in the index

---
 tsfile-writer/src/writer/mod.rs              | 23 +++++---------------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 22 +++++--------------
 2 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 7518113..6d65053 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -83,7 +83,6 @@
 #![allow(unused_must_use)]
 extern crate core;
 
-use std::cmp::Ordering;
 use std::collections::hash_map::IntoIter;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::{Display, Formatter};
@@ -222,26 +221,16 @@ pub struct MeasurementSchema {
     pub compression: CompressionType,
 }
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+// Both parts may contain dots, so they are not told apart again once they are joined
+#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 struct Path {
-    path: String,
+    device_id: String,
+    measurement_id: String,
 }
 
 impl Display for Path {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.path)
-    }
-}
-
-impl Ord for Path {
-    fn cmp(&self, other: &Self) -> Ordering {
-        self.path.cmp(&other.path)
-    }
-}
-
-impl PartialOrd<Self> for Path {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.path.partial_cmp(&other.path)
+        write!(f, "{}.{}", self.device_id, self.measurement_id)
     }
 }
 
@@ -725,7 +714,7 @@ impl BloomFilter {
             BloomFilter::empty_filter(config.bloom_filter_error_rate, paths.len() as i32, config);
 
         for path in paths {
-            filter.add(path.path);
+            filter.add(path.to_string());
         }
 
         filter
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..8a6f106 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -144,12 +144,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
-                );
                 let path = Path {
-                    path: device_path.clone(),
+                    device_id: group_metadata.device_id.clone(),
+                    measurement_id: chunk_metadata.measurement_id.clone(),
                 };
                 if !&chunk_metadata_map.contains_key(&path) {
                     chunk_metadata_map.insert(path.clone(), vec![]);
@@ -195,15 +192,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
+        let mut last_path: Option<&Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
             // ensure that paths are printed in alphabetical order
             match &last_path {
-                None => last_path = Some(path.path.clone()),
+                None => last_path = Some(path),
                 Some(p) => {
                     assert!(
-                        p < &path.path,
+                        p < &path,
                         "Something went wrong.. footer was written in wrong order"
                     );
                 }
@@ -240,14 +237,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
+            let device_id = path.device_id.clone();
 
             if !self.timeseries_metadata_map.contains_key(&device_id) {
                 self.timeseries_metadata_map
-- 
2.43.0


From d69e1d88450d26bf4b18a913f19db28aad57cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 16/28] fix: report failed writes to the file, at the latest on
 close

They were ignored, so a file with missing parts was reported as finished.
After a failure the writer refuses to continue the damaged file.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 32 +++++-----
 tsfile-writer/src/writer/group_writer.rs     | 13 ++--
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 29 +++++----
 tsfile-writer/src/writer/tsfile_writer.rs    | 38 ++++++++---
 6 files changed, 106 insertions(+), 74 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..82e5448 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().expect("Unable to close the file");
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 28e305b..521bb6a 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -209,15 +209,16 @@ impl ChunkWriter {
         }
     }
 
-    pub(crate) fn seal_current_page(&mut self) {
+    pub(crate) fn seal_current_page(&mut self) -> Result<(), TsFileError> {
         match &self.current_page_writer {
             None => {}
             Some(pw) => {
                 if pw.point_number > 0 {
-                    self.write_page_to_buffer();
+                    self.write_page_to_buffer()?;
                 }
             }
         }
+        Ok(())
     }
 
     pub(crate) fn get_serialized_chunk_size(&self) -> u64 {
@@ -240,24 +241,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
-        self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+    ) -> Result<(), TsFileError> {
+        self.seal_current_page()?;
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -268,13 +270,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -290,6 +292,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
@@ -336,17 +339,17 @@ impl ChunkWriter {
             }
             Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
         };
-        self.check_page_size_and_may_open_new_page();
+        self.check_page_size_and_may_open_new_page()?;
         Ok(records_written)
     }
 
-    fn check_page_size_and_may_open_new_page(&mut self) {
+    fn check_page_size_and_may_open_new_page(&mut self) -> Result<(), TsFileError> {
         if self.current_page_writer.is_none() {
-            return;
+            return Ok(());
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
         if page_writer.point_number > max_number_of_points_in_page() {
-            self.write_page_to_buffer();
+            self.write_page_to_buffer()?;
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
@@ -357,7 +360,7 @@ impl ChunkWriter {
             page_size_threshold(),
             current_page_size,
             page_writer.point_number);
-                self.write_page_to_buffer();
+                self.write_page_to_buffer()?;
                 self.value_count_in_one_page_for_next_check = minimum_record_count_for_check();
             } else {
                 // valueCountInOnePageForNextCheck =
@@ -367,6 +370,7 @@ impl ChunkWriter {
                         * (page_writer.point_number as f32)) as u32;
             }
         }
+        Ok(())
     }
 
     //   private void checkPageSizeAndMayOpenANewPage() {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index e7b09e0..7acecda 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -38,18 +38,18 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
-        self.seal_all_chunks();
+        self.seal_all_chunks()?;
 
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
@@ -65,10 +65,11 @@ impl<'a> GroupWriter<'a> {
         }
         buffer_size
     }
-    fn seal_all_chunks(&mut self) {
+    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
         for (_, writer) in self.chunk_writers.iter_mut() {
-            writer.seal_current_page();
+            writer.seal_current_page()?;
         }
+        Ok(())
     }
     fn get_current_chunk_group_size(&mut self) -> u64 {
         // long size = 0;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 6d65053..fa84902 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -341,7 +341,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write_all(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -361,8 +361,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write_all(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -386,14 +386,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write_all(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -425,7 +425,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -461,7 +461,7 @@ impl MetadataIndexNode {
                     name: metadata_index_node.children[0].name.clone(),
                     offset: file.get_position() as usize,
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             Self::add_current_index_node_to_queue(
                 &mut current_index_node,
@@ -469,7 +469,7 @@ impl MetadataIndexNode {
                 file,
             );
         }
-        metadata_index_queue.remove(0)
+        Ok(metadata_index_queue.remove(0))
     }
 
     #[allow(unused_variables)]
@@ -477,7 +477,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -510,7 +510,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -525,7 +525,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -537,10 +537,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -561,7 +561,7 @@ impl MetadataIndexNode {
                 name: s,
                 offset: file.get_position() as usize,
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -573,9 +573,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         device_metadata_index_node.end_offset = file.get_position() as usize;
-        device_metadata_index_node
+        Ok(device_metadata_index_node)
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
@@ -616,7 +616,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -624,13 +624,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -775,10 +775,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -802,15 +802,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index 8a6f106..e4fafe7 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -162,15 +163,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -178,20 +179,22 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        self.out.flush()?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut last_path: Option<&Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 89e41fe..3f773ff 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -130,6 +130,8 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     timeseries_metadata_map: HashMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
     record_count: u32,
     record_count_for_next_mem_check: u32,
+    // A part of the file could not be written, so it can not be finished any more
+    failed: bool,
     non_aligned_timeseries_last_time_map: BTreeMap<&'a str, BTreeMap<&'a str, i64>>,
     pub schema: Schema<'a>,
     #[allow(dead_code)]
@@ -137,10 +139,23 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    /// Finishes the file. It is complete only if this returns `Ok`.
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.check_not_failed()?;
+        self.flush_all_chunk_groups()?;
+        let result = self.file_io_writer.end_file();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn check_not_failed(&self) -> Result<(), TsFileError> {
+        if self.failed {
+            return Err(TsFileError::IllegalState {
+                source: Some("An earlier write to the file failed".to_owned()),
+            });
+        }
+        Ok(())
     }
 }
 
@@ -152,6 +167,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -163,7 +179,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -173,6 +189,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 // Points before the first refused one are written and have to be counted
@@ -182,7 +199,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         };
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         result
     }
 
@@ -220,13 +237,19 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
+        let result = self.write_all_chunk_groups();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn write_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         if self.record_count > 0 {
             for (&device_id, group_writer) in self.group_writers.iter_mut() {
                 // self.file_writer.start_chunk_group(device_id);
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -234,7 +257,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
@@ -361,6 +384,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
             record_count_for_next_mem_check: first_mem_check(),
+            failed: false,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
-- 
2.43.0


From 51d84c816824984c27024dbe9943919a9c2ef71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 17/28] fix: return an error if the file can not be created

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 3f773ff..cc5c9d1 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -331,9 +331,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From 9c2826ab97041b50d9d83a7b48df82b600b3b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 18/28] fix: a closed file is final: no second footer, no
 points that get lost

---
 tsfile-writer/src/writer/tsfile_writer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index cc5c9d1..d6d2768 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -132,6 +132,7 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     record_count_for_next_mem_check: u32,
     // A part of the file could not be written, so it can not be finished any more
     failed: bool,
+    closed: bool,
     non_aligned_timeseries_last_time_map: BTreeMap<&'a str, BTreeMap<&'a str, i64>>,
     pub schema: Schema<'a>,
     #[allow(dead_code)]
@@ -143,9 +144,13 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
         self.check_not_failed()?;
+        if self.closed {
+            return Ok(());
+        }
         self.flush_all_chunk_groups()?;
         let result = self.file_io_writer.end_file();
         self.failed = result.is_err();
+        self.closed = result.is_ok();
         result
     }
 
@@ -157,6 +162,15 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         }
         Ok(())
     }
+
+    fn check_writable(&self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The file is already closed".to_owned()),
+            });
+        }
+        self.check_not_failed()
+    }
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
@@ -167,7 +181,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
-        self.check_not_failed()?;
+        self.check_writable()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -189,7 +203,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        self.check_not_failed()?;
+        self.check_writable()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 // Points before the first refused one are written and have to be counted
@@ -385,6 +399,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             record_count: 0,
             record_count_for_next_mem_check: first_mem_check(),
             failed: false,
+            closed: false,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
-- 
2.43.0


From b7cf4026199178bb8ce4e71a10aed17145cb985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 19/28] fix: sync: a refused handshake is not a connection

---
 tsfile-writer/src/sync/sync_sender.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 1a11e02..05ee798 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -18,6 +18,8 @@ use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClie
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
+// The only status code of a receiver that stands for success
+const SUCCESS_CODE: i32 = 1;
 
 pub struct SyncSender<IP, OP>
 where
@@ -118,8 +120,8 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code == SUCCESS_CODE => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From 9c73e79fbbf14cee4e89b28ee17e880095d77a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 20/28] fix: sync: read the file under its own name, not under
 the announced one

---
 tsfile-writer/src/sync/sync_sender.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 05ee798..fbaf109 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -160,9 +160,14 @@ impl
             }
         }
 
-        let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
+        // The receiver knows the file by virtual storage group, time partition and its name
+        let name = match std::path::Path::new(filename).file_name() {
+            Some(name) => name.to_string_lossy(),
+            None => filename.into(),
+        };
+        let announced = format!("0_0_{}", name); // 0_0_1654074550252-1-0-0.tsfile
 
-        self.client.init_sync_data(filename.to_string()).expect("");
+        self.client.init_sync_data(announced).expect("");
         let bytes = fs::read(filename).expect("");
         self.client.sync_data(bytes.clone()).expect("");
         let digest = Self::calculate_digest(&bytes);
-- 
2.43.0


From 40dc0123d0e82030001855ae67bb1e97b825d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 21/28] fix: sync: a transfer succeeds only if every step was
 confirmed

Refusals were ignored and failures panicked.
---
 tsfile-writer/src/sync/sync_sender.rs | 60 +++++++++++++--------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index fbaf109..dd39cc5 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -14,7 +14,7 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient};
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
@@ -38,6 +38,10 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    /// The receiver did not confirm a step of the transfer
+    Rejected,
+    /// The data to send could not be read or prepared
+    LocalError,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -132,33 +136,25 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
+        Self::confirmed(self.client.start_sync())?;
+        Self::confirmed(self.client.init(std::string::String::from(storage_group)))?;
 
         // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
+        Self::confirmed(
+            self.client
+                .init_sync_data(std::string::String::from("mlog.bin")),
+        )?;
 
         // Create the mlog
         let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
+            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::LocalError)?;
 
-        self.client.sync_data(mlog_bytes.clone())?;
+        Self::confirmed(self.client.sync_data(mlog_bytes.clone()))?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
         println!("Digest of Sender: {}", digest);
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        Self::confirmed(self.client.check_data_digest(digest))?;
 
         // The receiver knows the file by virtual storage group, time partition and its name
         let name = match std::path::Path::new(filename).file_name() {
@@ -167,23 +163,27 @@ impl
         };
         let announced = format!("0_0_{}", name); // 0_0_1654074550252-1-0-0.tsfile
 
-        self.client.init_sync_data(announced).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+        Self::confirmed(self.client.init_sync_data(announced))?;
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
+        Self::confirmed(self.client.sync_data(bytes.clone()))?;
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
-        }
-        self.client.end_sync()?;
+        Self::confirmed(self.client.check_data_digest(digest))?;
+        Self::confirmed(self.client.end_sync())?;
         Ok(())
     }
 
+    /// A step is done only if the receiver answers it with success
+    #[allow(dead_code)]
+    fn confirmed(result: thrift::Result<SyncStatus>) -> Result<(), SyncSenderError> {
+        let status = result?;
+        println!("Result: {}, {}", status.code, status.msg);
+        match status.code {
+            SUCCESS_CODE => Ok(()),
+            _ => Err(SyncSenderError::Rejected),
+        }
+    }
+
     #[allow(dead_code)]
     fn calculate_digest(writer: &[u8]) -> std::string::String {
         let sha256 = sha2::Sha256::digest(&writer);
-- 
2.43.0


From 6040df66beef2609b2cadf20ad976ad51ec75a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 22/28] fix: sync: never use, or replace, a partly stored
 identity

---
 tsfile-writer/src/sync/sync_sender.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index dd39cc5..16bded0 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -18,6 +18,8 @@ use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncSer
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
+// Number of hex digits of a generated identity
+const UUID_LENGTH: usize = 32;
 // The only status code of a receiver that stands for success
 const SUCCESS_CODE: i32 = 1;
 
@@ -225,15 +227,22 @@ impl
     fn get_or_generate_uuid() -> Result<String, SyncSenderError> {
         // Read UUID
         match fs::read_to_string("uuid.lock") {
-            Ok(content) => {
+            // A shorter content was never completely stored
+            Ok(content) if content.len() >= UUID_LENGTH => {
                 println!("Using UUID from file: {}", content);
                 Ok(content)
             }
-            Err(_) => {
+            // An existing identity that can not be read right now must not be replaced
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                Err(SyncSenderError::UnableGenerateUuid)
+            }
+            _ => {
                 println!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
-                // Save to file
-                match fs::write("uuid.lock", &uuid) {
+                // Save to file, which appears under its name only when it is complete
+                match fs::write("uuid.lock.tmp", &uuid)
+                    .and_then(|_| fs::rename("uuid.lock.tmp", "uuid.lock"))
+                {
                     Ok(_) => {
                         println!("UUID saved successfully")
                     }
-- 
2.43.0


From d190f3456a7a4af9fb20b49e425c1ccb0ae5f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 23/28] fix: checking the memory of an empty buffer must not
 divide by zero

---
 tsfile-writer/src/writer/tsfile_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index d6d2768..b963b77 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -219,7 +219,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
         if self.record_count >= self.record_count_for_next_mem_check {
-            let mem_size = self.calculate_mem_size_for_all_groups();
+            // Nothing at all may be buffered, e.g. right after a flush
+            let mem_size = self.calculate_mem_size_for_all_groups().max(1);
             log::trace!("Memcount calculated: {}", mem_size);
             log::trace!(
                 "{:.2?}% - {} / {} for flushing",
-- 
2.43.0


From d5b3b1196f1eaefc4417d01b973eeea1a32be86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 24/28] fix: sync: senders started at the same time agree on
 one identity

---
 tsfile-writer/src/sync/sync_sender.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 16bded0..70899a1 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -240,12 +240,15 @@ impl
                 println!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                 // Save to file, which appears under its name only when it is complete
-                match fs::write("uuid.lock.tmp", &uuid)
-                    .and_then(|_| fs::rename("uuid.lock.tmp", "uuid.lock"))
-                {
-                    Ok(_) => {
+                let temp = format!("uuid.lock.{}", uuid);
+                let saved = fs::write(&temp, &uuid).and_then(|_| Self::publish_uuid(&temp));
+                // Gone already if it was renamed
+                let _ = fs::remove_file(&temp);
+                match saved {
+                    Ok(None) => {
                         println!("UUID saved successfully")
                     }
+                    Ok(Some(other)) => return Ok(other),
                     Err(_) => {
                         return Err(SyncSenderError::UnableGenerateUuid);
                     }
@@ -254,6 +257,22 @@ impl
             }
         }
     }
+
+    /// Returns the identity another sender stored in the meantime, if any: it is not replaced
+    fn publish_uuid(temp: &str) -> std::io::Result<Option<String>> {
+        match fs::hard_link(temp, "uuid.lock") {
+            Ok(_) => return Ok(None),
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {
+                let content = fs::read_to_string("uuid.lock")?;
+                if content.len() >= UUID_LENGTH {
+                    return Ok(Some(content));
+                }
+            }
+            // No hard links here
+            Err(_) => {}
+        }
+        fs::rename(temp, "uuid.lock").map(|_| None)
+    }
 }
 
 /// Hook for the deterministic simulator: makes the (private) transfer reachable.
-- 
2.43.0


From 7ff7446d010d21db18882f588d179cbcde2004b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:24 +0000
Subject: [PATCH 25/28] fix: bound what is buffered when points get larger
 between two memory checks

---
 tsfile-writer/src/writer/tsfile_writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index b963b77..8ae04de 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -13,6 +13,8 @@ use std::fs::{create_dir_all, File};
 
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
 const FIRST_MEM_CHECK: u32 = 100;
+// More than a point takes (time, value and its share of the headers of a block and a page)
+const MAX_POINT_SIZE_BYTE: u32 = 32;
 
 fn chunk_group_size_threshold() -> u32 {
     #[cfg(tsfile_sim)]
@@ -233,7 +235,9 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     * chunk_group_size_threshold() as u64
                     / mem_size as u64)
                     as u32;
-                return self.flush_all_chunk_groups();
+                let result = self.flush_all_chunk_groups();
+                self.limit_next_mem_check(0);
+                return result;
             } else {
                 // println!("Record Count: {}, CHUNK_GROUP_SIZE_THRESHOLD_BYTE: {}, memsize: {}", self.record_count_for_next_mem_check, CHUNK_GROUP_SIZE_THRESHOLD_BYTE, mem_size);
                 // in the java impl there can be an overflow...
@@ -241,6 +245,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     * chunk_group_size_threshold() as u64
                     / mem_size as u64)
                     as u32;
+                self.limit_next_mem_check(mem_size);
                 log::trace!(
                     "Next record count for check {}",
                     self.record_count_for_next_mem_check
@@ -251,6 +256,15 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         Ok(false)
     }
 
+    // The next check extrapolates from the points so far, but the next ones may be larger
+    fn limit_next_mem_check(&mut self, mem_size: u32) {
+        let free = chunk_group_size_threshold().saturating_sub(mem_size);
+        let latest = self
+            .record_count
+            .saturating_add(free / MAX_POINT_SIZE_BYTE + 1);
+        self.record_count_for_next_mem_check = self.record_count_for_next_mem_check.min(latest);
+    }
+
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         let result = self.write_all_chunk_groups();
         self.failed = result.is_err();
-- 
2.43.0


From 90a34df9c338dbb81ae9b99f821ccec36584f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:19 +0000
Subject: [PATCH 26/28] fix: a C caller without a schema gets a diagnostic, not
 undefined behaviour

---
 tsfile-writer-c/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 82e5448..76cb307 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -69,6 +69,7 @@ pub extern "C" fn file_writer_new(
 
         CStr::from_ptr(filename)
     };
+    assert!(!schema.is_null());
     let schema = unsafe { Box::from_raw(schema) };
     let b = Box::new(
         TsFileWriter::new(
-- 
2.43.0


From b5f54be9cb36ce30952a73276fc99d454e5d991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:23 +0000
Subject: [PATCH 27/28] fix: a row that is refused as a whole does not move the
 next memory check

write_many checked the memory also if no point of the row was accepted.
A check may move the next one, so the refused call decided where the
chunk groups of the later points were cut.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 8ae04de..cfc9f20 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -210,6 +210,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             Some(group) => {
                 // Points before the first refused one are written and have to be counted
                 let (records_written, result) = group.write_many(timestamp, values);
+                if records_written == 0 {
+                    // Nothing new to check
+                    return result;
+                }
                 self.record_count += records_written;
                 result
             }
-- 
2.43.0


From f67d40c332737e41c5c0843f82abb17c82c217d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:33 +0000
Subject: [PATCH 28/28] fix: a sender that cannot print reports nothing,
 instead of panicking

println! panics if standard output cannot be written (a full disk, a closed
pipe), in the middle of creating an identity or of a transfer. A library
logs instead.
---
 tsfile-writer/src/sync/sync_sender.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 70899a1..0460386 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -154,7 +154,7 @@ impl
         Self::confirmed(self.client.sync_data(mlog_bytes.clone()))?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
-        println!("Digest of Sender: {}", digest);
+        log::info!("Digest of Sender: {}", digest);
 
         Self::confirmed(self.client.check_data_digest(digest))?;
 
@@ -169,7 +169,7 @@ impl
         let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
         Self::confirmed(self.client.sync_data(bytes.clone()))?;
         let digest = Self::calculate_digest(&bytes);
-        println!("Digest of Sender: {}", digest);
+        log::info!("Digest of Sender: {}", digest);
         Self::confirmed(self.client.check_data_digest(digest))?;
         Self::confirmed(self.client.end_sync())?;
         Ok(())
@@ -179,7 +179,7 @@ impl
     #[allow(dead_code)]
     fn confirmed(result: thrift::Result<SyncStatus>) -> Result<(), SyncSenderError> {
         let status = result?;
-        println!("Result: {}, {}", status.code, status.msg);
+        log::info!("Result: {}, {}", status.code, status.msg);
         match status.code {
             SUCCESS_CODE => Ok(()),
             _ => Err(SyncSenderError::Rejected),
@@ -229,7 +229,7 @@ impl
         match fs::read_to_string("uuid.lock") {
             // A shorter content was never completely stored
             Ok(content) if content.len() >= UUID_LENGTH => {
-                println!("Using UUID from file: {}", content);
+                log::info!("Using UUID from file: {}", content);
                 Ok(content)
             }
             // An existing identity that can not be read right now must not be replaced
@@ -237,7 +237,7 @@ impl
                 Err(SyncSenderError::UnableGenerateUuid)
             }
             _ => {
-                println!("Generating UUID...");
+                log::info!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                 // Save to file, which appears under its name only when it is complete
                 let temp = format!("uuid.lock.{}", uuid);
@@ -246,7 +246,7 @@ impl
                 let _ = fs::remove_file(&temp);
                 match saved {
                     Ok(None) => {
-                        println!("UUID saved successfully")
+                        log::info!("UUID saved successfully")
                     }
                     Ok(Some(other)) => return Ok(other),
                     Err(_) => {
-- 
2.43.0

