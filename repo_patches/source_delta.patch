From e2bf0738a76542e33ce17ac31259dff92f4e8443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 01/31] fix: make MurmurHash3 arithmetic wrap instead of
 overflowing

Paths of 16 bytes or more (and many shorter ones) panicked in builds with
overflow checks.
---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 4f6bab529ef996a1fe63700acacdc7bff3829902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 02/31] fix: Bloom filter hash of i32::MIN no longer leaves the
 filter

abs() of i32::MIN panics with overflow checks and yields a negative
index without them.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..9881db1 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -669,7 +669,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        (self._murmur_hash(value, self.seed).unsigned_abs() % self.cap as u32) as usize
     }
 }
 
-- 
2.43.0


From 95968a60a7823e6f167872506d2b2237dcdd9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 03/31] fix: round the Bloom filter byte count up

Filters whose size modulo 8 is 1 to 3 (for example with 44 series)
panicked on close.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 9881db1..70ccee6 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -738,7 +738,7 @@ impl BloomFilter {
         let number_of_bytes = if self.bit_set.len() % 8 == 0 {
             self.bit_set.len() / 8
         } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
+            (self.bit_set.len() + 7) / 8
         };
 
         let mut result = vec![0_u8; number_of_bytes];
-- 
2.43.0


From ddb4026fc7fa7da9b004b86b291862a47460720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 04/31] fix: TS2DIFF differences wrap instead of overflowing

Values or timestamps further apart than the type's range panicked in
builds with overflow checks; the decoder adds with wrap-around.
---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..5f4b108 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = <$type>::wrapping_sub(value, self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 9caed126f57d83dde2305039b1c18f6e6acdd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 05/31] fix: FLOAT statistics of infinities

Minimum and maximum started at the finite extremes, so a series of only
+inf (-inf) reported f32::MAX (f32::MIN) instead.
---
 tsfile-writer/src/writer/statistics.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..037f38e 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -120,14 +120,14 @@ impl StatisticsStruct<f32, f64> {
 }
 
 macro_rules! implement_statistics {
-    ( $type:ty, $sum:ty ) => {
+    ( $type:ty, $sum:ty, $min:expr, $max:expr ) => {
         impl StatisticsStruct<$type, $sum> {
             pub(crate) fn new() -> StatisticsStruct<$type, $sum> {
                 StatisticsStruct {
                     ts_first: i64::MAX,
                     ts_last: i64::MIN,
-                    min_value: <$type>::MAX,
-                    max_value: <$type>::MIN,
+                    min_value: $max,
+                    max_value: $min,
                     first_value: 0 as $type,
                     last_value: 0 as $type,
                     count: 0,
@@ -193,8 +193,8 @@ macro_rules! implement_statistics {
     };
 }
 
-implement_statistics!(i32, i64);
-implement_statistics!(i64, f64);
-implement_statistics!(f32, f64);
+implement_statistics!(i32, i64, i32::MIN, i32::MAX);
+implement_statistics!(i64, f64, i64::MIN, i64::MAX);
+implement_statistics!(f32, f64, f32::NEG_INFINITY, f32::INFINITY);
 // TODO Implement / use
 // implement_statistics!(f64);
-- 
2.43.0


From ffcac1930342925fb3e493cff806ab79c3021387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 06/31] fix: first value in statistics when the first timestamp
 is i64::MAX

---
 tsfile-writer/src/writer/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 037f38e..3e1239d 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,7 +136,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
@@ -155,7 +155,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-- 
2.43.0


From 8f8e1576682b7683f96b76cef5f2165bb678a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 07/31] fix: file index entries under the device they were
 written to

Series were keyed by "device.measurement" and split again at the last
dot, so a measurement name containing a dot ended up under a device that
does not exist, and two series with the same joined path were merged.
---
 tsfile-writer/src/writer/mod.rs              | 13 +++++++-----
 tsfile-writer/src/writer/tsfile_io_writer.rs | 22 ++++++--------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 70ccee6..5ce62e0 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -222,24 +222,27 @@ pub struct MeasurementSchema {
 
 #[derive(Clone, PartialEq, Eq, Hash)]
 struct Path {
-    path: String,
+    device: String,
+    measurement: String,
 }
 
 impl Display for Path {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.path)
+        write!(f, "{}.{}", self.device, self.measurement)
     }
 }
 
 impl Ord for Path {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.path.cmp(&other.path)
+        self.device
+            .cmp(&other.device)
+            .then_with(|| self.measurement.cmp(&other.measurement))
     }
 }
 
 impl PartialOrd<Self> for Path {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.path.partial_cmp(&other.path)
+        Some(self.cmp(other))
     }
 }
 
@@ -711,7 +714,7 @@ impl BloomFilter {
             BloomFilter::empty_filter(config.bloom_filter_error_rate, paths.len() as i32, config);
 
         for path in paths {
-            filter.add(path.path);
+            filter.add(path.to_string());
         }
 
         filter
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..883d365 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -144,12 +144,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
-                );
                 let path = Path {
-                    path: device_path.clone(),
+                    device: group_metadata.device_id.clone(),
+                    measurement: chunk_metadata.measurement_id.clone(),
                 };
                 if !&chunk_metadata_map.contains_key(&path) {
                     chunk_metadata_map.insert(path.clone(), vec![]);
@@ -195,15 +192,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
+        let mut last_path: Option<&Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
             // ensure that paths are printed in alphabetical order
             match &last_path {
-                None => last_path = Some(path.path.clone()),
+                None => last_path = Some(path),
                 Some(p) => {
                     assert!(
-                        p < &path.path,
+                        *p < path,
                         "Something went wrong.. footer was written in wrong order"
                     );
                 }
@@ -240,14 +237,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
+            let device_id = path.device.clone();
 
             if !self.timeseries_metadata_map.contains_key(&device_id) {
                 self.timeseries_metadata_map
-- 
2.43.0


From 3fbce8cb78ea5364be6dea077d019b8ddc17a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 08/31] fix: sort the devices in the metadata index

Devices were indexed in hash map order, which differs from run to run
and defeats the reader's binary search.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 5ce62e0..82a173b 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -510,7 +510,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 69673d0d2838cc2902dd7669f6415a41a092c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 09/31] fix: write index offsets as 8 bytes on every platform

They were usize, which is 4 bytes on 32-bit targets.
---
 tsfile-writer/src/writer/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 82a173b..5a3dd58 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -362,7 +362,7 @@ struct TimeseriesMetadata {}
 #[derive(Clone)]
 struct MetadataIndexEntry {
     name: String,
-    offset: usize,
+    offset: u64,
 }
 
 impl Serializable for MetadataIndexEntry {
@@ -382,7 +382,7 @@ impl Serializable for MetadataIndexEntry {
 #[derive(Clone)]
 struct MetadataIndexNode {
     children: Vec<MetadataIndexEntry>,
-    end_offset: usize,
+    end_offset: u64,
     node_type: MetadataIndexNodeType,
 }
 
@@ -425,7 +425,7 @@ impl MetadataIndexNode {
     ) {
         // TODO file.getPosition
         // currentIndexNode.setEndOffset(out.getPosition());
-        current_index_node.end_offset = file.get_position() as usize;
+        current_index_node.end_offset = file.get_position();
         // metadataIndexNodeQueue.add(currentIndexNode);
         measurement_metadata_index_queue.push(current_index_node.clone());
     }
@@ -473,7 +473,7 @@ impl MetadataIndexNode {
                 };
                 measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
                 if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
+                    current_index_metadata.end_offset = file.get_position();
                     measurement_metadata_index_queue.push(current_index_metadata.clone());
                 }
                 // ...
@@ -485,7 +485,7 @@ impl MetadataIndexNode {
                 };
                 current_index_metadata.children.push(MetadataIndexEntry {
                     name,
-                    offset: file.get_position() as usize,
+                    offset: file.get_position(),
                 });
             }
             // ...
@@ -539,7 +539,7 @@ impl MetadataIndexNode {
                     }
                     current_index_node.children.push(MetadataIndexEntry {
                         name: timeseries_metadata.get_measurement_id(),
-                        offset: file.get_position() as usize,
+                        offset: file.get_position(),
                     });
                 }
                 timeseries_metadata.serialize(file);
@@ -549,7 +549,7 @@ impl MetadataIndexNode {
             //       entry.getKey(),
             //       generateRootNode(
             //           measurementMetadataIndexQueue, out, MetadataIndexNodeType.INTERNAL_MEASUREMENT));
-            current_index_node.end_offset = file.get_position() as usize;
+            current_index_node.end_offset = file.get_position();
             measurement_metadata_index_queue.push(current_index_node.clone());
 
             let root_node = Self::generate_root_node(
@@ -567,11 +567,11 @@ impl MetadataIndexNode {
             for (s, value) in device_metadata_index_map {
                 metadata_index_node.children.push(MetadataIndexEntry {
                     name: s.to_owned(),
-                    offset: file.get_position() as usize,
+                    offset: file.get_position(),
                 });
                 value.serialize(file);
             }
-            metadata_index_node.end_offset = file.get_position() as usize;
+            metadata_index_node.end_offset = file.get_position();
             return metadata_index_node;
         }
 
-- 
2.43.0


From 9377b28c532f110fec649a365a92e5f2fde9c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 10/31] fix: serialize every node of a measurement index with
 several levels

With more than 256 x 256 measurements per device the nodes below the root
were listed in reverse, never written, and full nodes were reused.
---
 tsfile-writer/src/writer/mod.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 5a3dd58..bf3cddd 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -457,26 +457,20 @@ impl MetadataIndexNode {
         //   queueSize = metadataIndexNodeQueue.size();
         // }
         // return metadataIndexNodeQueue.poll();
-        // TODO
         let mut queue_size = measurement_metadata_index_queue.len();
-        let mut metadata_index_node;
         let mut current_index_metadata = MetadataIndexNode::new(node_type.clone());
 
         while queue_size != 1 {
-            for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
+            for metadata_index_node in measurement_metadata_index_queue.split_off(0) {
+                // when constructing from internal node, each node is related to an entry
                 if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position();
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_metadata,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_metadata = MetadataIndexNode::new(node_type.clone());
                 }
-                // ...
                 let name = match metadata_index_node.children.get(0) {
                     None => {
                         panic!("This should not happen!")
@@ -487,6 +481,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position(),
                 });
+                metadata_index_node.serialize(file);
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -494,11 +489,7 @@ impl MetadataIndexNode {
                 &mut measurement_metadata_index_queue,
                 file,
             );
-            current_index_metadata = MetadataIndexNode {
-                children: vec![],
-                end_offset: 0,
-                node_type: node_type.clone(),
-            };
+            current_index_metadata = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
         return measurement_metadata_index_queue.get(0).unwrap().clone();
-- 
2.43.0


From 27ce6a17567fc6702c9eb44b1cd9dd41c4c90f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 11/31] fix: index files with more than 256 devices

close panicked instead of building a device index with several levels.
---
 tsfile-writer/src/writer/mod.rs | 67 +++++++++++++++++----------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index bf3cddd..ea85ea8 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -331,6 +331,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -350,6 +351,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write(&[byte]);
 
@@ -566,39 +568,40 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (device, value) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: device,
+                offset: file.get_position(),
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
 
-        // // if not exceed the max child nodes num, ignore the device index and directly point to the
-        // // measurement
-        // if (deviceMetadataIndexMap.size() <= config.getMaxDegreeOfIndexNode()) {
-        //   MetadataIndexNode metadataIndexNode =
-        //       new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //     metadataIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //     entry.getValue().serializeTo(out.wrapAsStream());
-        //   }
-        //   metadataIndexNode.setEndOffset(out.getPosition());
-        //   return metadataIndexNode;
-        // }
-        //
-        // // else, build level index for devices
-        // Queue<MetadataIndexNode> deviceMetadataIndexQueue = new ArrayDeque<>();
-        // MetadataIndexNode currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //
-        // for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //   // when constructing from internal node, each node is related to an entry
-        //   if (currentIndexNode.isFull()) {
-        //     addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        //     currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   }
-        //   currentIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //   entry.getValue().serializeTo(out.wrapAsStream());
-        // }
-        // addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        // MetadataIndexNode deviceMetadataIndexNode =
-        //     generateRootNode(deviceMetadataIndexQueue, out, MetadataIndexNodeType.INTERNAL_DEVICE);
-        // deviceMetadataIndexNode.setEndOffset(out.getPosition());
-        // return deviceMetadataIndexNode;
+        let mut device_metadata_index_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        device_metadata_index_node.end_offset = file.get_position();
+        device_metadata_index_node
     }
     fn is_full(&self, config: &TsFileConfig) -> bool {
         self.children.len() >= config.max_degree_of_index_node
-- 
2.43.0


From dac055de6ee7adb1f4d0a875b0550b486ab9cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 12/31] fix: return an error for values and encodings that do
 not fit the series

A value of another type than the series was encoded anyway or panicked
in todo!(), and an encoding that does not support the type panicked in
unwrap().
---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..4b2e166 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -282,6 +282,12 @@ impl ChunkWriter {
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
         // self.statistics.update(timestamp, &value);
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         match &mut self.current_page_writer {
             None => {
                 // Create a page
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 85b0f4f28ed0845b9c4960b910e14c56cc3649d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 13/31] fix: keep the accepted points of a partly rejected
 batch

write_many did not count the points written before a rejected one, so
they were lost on close when nothing else was written, and never made
the writer flush.
---
 tsfile-writer/src/writer/group_writer.rs  | 10 +++++++---
 tsfile-writer/src/writer/tsfile_writer.rs |  9 +++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..6b8da7c 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,16 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
+    ) -> (u32, Result<(), TsFileError>) {
         let mut records = 0;
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            match self.write(dp.measurement_id, timestamp, dp.value) {
+                Ok(records_written) => records += records_written,
+                // The points before this one have been written
+                Err(e) => return (records, Err(e)),
+            }
         }
-        Ok(records)
+        (records, Ok(()))
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..6aa8723 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -156,15 +156,16 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        match self.group_writers.get_mut(device) {
+        let result = match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
+                let (records_written, result) = group.write_many(timestamp, values);
                 self.record_count += records_written;
+                result
             }
             None => return Err(TsFileError::IllegalState { source: None }),
-        }
+        };
         self.check_memory_size_and_may_flush_chunks();
-        Ok(())
+        result
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-- 
2.43.0


From 7ebe36bbc6ed8983f78792dedb60f6e6469627eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 14/31] fix: reject out-of-order points after an automatic
 flush as well

The last timestamps were saved but not restored when the group writers
were recreated, so old or duplicate timestamps were accepted again.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 6aa8723..477051f 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -243,6 +243,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         self.record_count = 0;
         // Reset Group Writers
         let schema = self.schema.clone();
+        // Points are checked against everything written before, in this flush or earlier
+        let last_time_map = &self.non_aligned_timeseries_last_time_map;
         self.group_writers = schema
             .measurement_groups
             .into_iter()
@@ -266,7 +268,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map: last_time_map.get(path).cloned().unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 12465ba62de7bc54da02c996780afe9855bcf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 15/31] fix: return an error when the output file cannot be
 created

TsFileWriter::new panicked instead.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 477051f..6f68c62 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -290,9 +290,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From 6b0092d99cd7cde6976000488181dc9f9399918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 16/31] fix: report output errors to the caller of write,
 write_many and close

Errors of the underlying output were ignored almost everywhere, and
close could not report any, so a full disk left a truncated file and no
trace. Index entries also used write instead of write_all, which loses
bytes on short writes.
---
 tsfile-writer-c/src/lib.rs                   |  4 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 40 ++++++------
 tsfile-writer/src/writer/group_writer.rs     | 13 ++--
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/test_utils.rs       |  4 +-
 tsfile-writer/src/writer/tsfile_io_writer.rs | 31 ++++-----
 tsfile-writer/src/writer/tsfile_writer.rs    | 14 ++---
 7 files changed, 90 insertions(+), 82 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..e3e1969 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,8 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        if let Err(e) = _b.close() {
+            log::error!("Unable to close the file: {:?}", e);
+        }
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 4b2e166..f75fe2f 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -177,15 +177,16 @@ impl ChunkWriter {
         }
     }
 
-    pub(crate) fn seal_current_page(&mut self) {
+    pub(crate) fn seal_current_page(&mut self) -> Result<(), TsFileError> {
         match &self.current_page_writer {
             None => {}
             Some(pw) => {
                 if pw.point_number > 0 {
-                    self.write_page_to_buffer();
+                    self.write_page_to_buffer()?;
                 }
             }
         }
+        Ok(())
     }
 
     pub(crate) fn get_serialized_chunk_size(&self) -> u64 {
@@ -208,24 +209,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
-        self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+    ) -> Result<(), TsFileError> {
+        self.seal_current_page()?;
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -236,13 +238,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -258,6 +260,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
@@ -303,17 +306,17 @@ impl ChunkWriter {
             }
             Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
         };
-        self.check_page_size_and_may_open_new_page();
+        self.check_page_size_and_may_open_new_page()?;
         Ok(records_written)
     }
 
-    fn check_page_size_and_may_open_new_page(&mut self) {
+    fn check_page_size_and_may_open_new_page(&mut self) -> Result<(), TsFileError> {
         if self.current_page_writer.is_none() {
-            return;
+            return Ok(());
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
         if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
-            self.write_page_to_buffer();
+            self.write_page_to_buffer()?;
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
@@ -324,7 +327,7 @@ impl ChunkWriter {
             PAGE_SIZE_THRESHOLD,
             current_page_size,
             page_writer.point_number);
-                self.write_page_to_buffer();
+                self.write_page_to_buffer()?;
                 self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
             } else {
                 // valueCountInOnePageForNextCheck =
@@ -334,6 +337,7 @@ impl ChunkWriter {
                         * (page_writer.point_number as f32)) as u32;
             }
         }
+        Ok(())
     }
 
     //   private void checkPageSizeAndMayOpenANewPage() {
@@ -591,12 +595,12 @@ impl ChunkMetadata {
         &self,
         file: &mut dyn PositionedWrite,
         serialize_statistics: bool,
-    ) -> io::Result<()> {
-        let result = file.write_all(&self.offset_of_chunk_header.to_be_bytes());
+    ) -> Result<(), TsFileError> {
+        file.write_all(&self.offset_of_chunk_header.to_be_bytes())?;
         if serialize_statistics {
-            self.statistics.serialize(file);
+            self.statistics.serialize(file)?;
         }
-        result
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 6b8da7c..d3f6f75 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -39,18 +39,18 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
-        self.seal_all_chunks();
+        self.seal_all_chunks()?;
 
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
@@ -66,10 +66,11 @@ impl<'a> GroupWriter<'a> {
         }
         buffer_size
     }
-    fn seal_all_chunks(&mut self) {
+    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
         for (_, writer) in self.chunk_writers.iter_mut() {
-            writer.seal_current_page();
+            writer.seal_current_page()?;
         }
+        Ok(())
     }
     fn get_current_chunk_group_size(&mut self) -> u64 {
         // long size = 0;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index ea85ea8..2a6c024 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -353,7 +353,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -373,8 +373,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -398,14 +398,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -438,7 +438,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -483,7 +483,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position(),
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -494,7 +494,7 @@ impl MetadataIndexNode {
             current_index_metadata = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        Ok(measurement_metadata_index_queue.get(0).unwrap().clone())
     }
 
     #[allow(unused_variables)]
@@ -502,7 +502,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -535,7 +535,7 @@ impl MetadataIndexNode {
                         offset: file.get_position(),
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -550,7 +550,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -562,10 +562,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position(),
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position();
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -586,7 +586,7 @@ impl MetadataIndexNode {
                 name: device,
                 offset: file.get_position(),
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -599,9 +599,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         device_metadata_index_node.end_offset = file.get_position();
-        device_metadata_index_node
+        Ok(device_metadata_index_node)
     }
     fn is_full(&self, config: &TsFileConfig) -> bool {
         self.children.len() >= config.max_degree_of_index_node
@@ -610,7 +610,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -618,13 +618,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -773,10 +773,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -800,15 +800,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/test_utils.rs b/tsfile-writer/src/writer/test_utils.rs
index 376e28b..b26d253 100644
--- a/tsfile-writer/src/writer/test_utils.rs
+++ b/tsfile-writer/src/writer/test_utils.rs
@@ -35,7 +35,5 @@ pub fn write_ts_file<'a, F: FnOnce(&mut TsFileWriter<WriteWrapper<File>>)>(
     test_code(&mut writer);
 
     // writer.flush();
-    writer.close();
-
-    Ok(())
+    writer.close()
 }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index 883d365..660a431 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -162,15 +163,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -178,20 +179,22 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        self.out.flush()?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut last_path: Option<&Path> = None;
         for (path, metadata) in chunk_metadata_list.iter() {
             // TODO do we really need this check here?
@@ -216,7 +219,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
                     continue;
                 }
                 // Serialize
-                m.serialize(&mut buffer, serialize_statistic);
+                m.serialize(&mut buffer, serialize_statistic)?;
 
                 let statistic = &m.statistics;
                 // Update the statistics
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 6f68c62..75a6293 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -120,10 +120,10 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.flush_all_chunk_groups()?;
+        self.file_io_writer.end_file()
     }
 }
 
@@ -146,7 +146,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -164,7 +164,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         };
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         result
     }
 
@@ -208,7 +208,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -216,7 +216,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
-- 
2.43.0


From 3c8b8cab3554d73f78104385c482f82275de9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 17/31] fix: a closed writer stays closed

Closing twice appended a second footer, and writes after close returned
Ok although their points are lost.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 75a6293..a2b94db 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -117,13 +117,28 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     pub schema: Schema<'a>,
     #[allow(dead_code)]
     config: TsFileConfig,
+    closed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     pub fn close(&mut self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Ok(());
+        }
         log::info!("start close file");
         self.flush_all_chunk_groups()?;
-        self.file_io_writer.end_file()
+        self.file_io_writer.end_file()?;
+        self.closed = true;
+        Ok(())
+    }
+
+    fn ensure_open(&self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("Writer is already closed".to_owned()),
+            });
+        }
+        Ok(())
     }
 }
 
@@ -135,6 +150,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.ensure_open()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -156,6 +172,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.ensure_open()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 let (records_written, result) = group.write_many(timestamp, values);
@@ -345,6 +362,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             record_count_for_next_mem_check: 100,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
+            closed: false,
             file_io_writer: io_writer,
         })
     }
-- 
2.43.0


From 43fe2d48bb598d130245cc87330a7670cb5328fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 18/31] fix: do not continue after an output error

A writer whose flush failed half way could be used and closed
successfully afterwards, leaving a corrupt file.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index a2b94db..8a41077 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -118,6 +118,7 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     #[allow(dead_code)]
     config: TsFileConfig,
     closed: bool,
+    failed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
@@ -125,14 +126,23 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         if self.closed {
             return Ok(());
         }
+        self.ensure_open()?;
         log::info!("start close file");
         self.flush_all_chunk_groups()?;
+        // Only a complete footer makes the file usable
+        self.failed = true;
         self.file_io_writer.end_file()?;
+        self.failed = false;
         self.closed = true;
         Ok(())
     }
 
     fn ensure_open(&self) -> Result<(), TsFileError> {
+        if self.failed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The output failed before, the file is incomplete".to_owned()),
+            });
+        }
         if self.closed {
             return Err(TsFileError::IllegalState {
                 source: Some("Writer is already closed".to_owned()),
@@ -220,6 +230,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
 
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         if self.record_count > 0 {
+            // Stays set if the flush is left with an error
+            self.failed = true;
             for (&device_id, group_writer) in self.group_writers.iter_mut() {
                 // self.file_writer.start_chunk_group(device_id);
                 // self.file_writer
@@ -238,6 +250,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
             }
+            self.failed = false;
             self.reset();
         }
         Ok(true)
@@ -363,6 +376,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             closed: false,
+            failed: false,
             file_io_writer: io_writer,
         })
     }
-- 
2.43.0


From e2c29bed1dfd847da0cf4166345c2438be17ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 19/31] fix: do not keep measurement names passed to write

The map of last timestamps kept the caller's string, which through the C
interface need not outlive the call, and grew with every unknown name.
---
 tsfile-writer/src/writer/group_writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index d3f6f75..39fd639 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -93,6 +93,16 @@ impl<'a> GroupWriter<'a> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<u32, TsFileError> {
+        // Keep the name from the schema, the one given may not live as long (C interface)
+        let measurement_id = match self.chunk_writers.get_key_value(measurement_id) {
+            Some((&schema_measurement_id, _)) => schema_measurement_id,
+            None => {
+                return Err(TsFileError::IllegalState {
+                    source: Some("Unknown measurement id".to_owned()),
+                });
+            }
+        };
+
         // Check is historic
         self.check_is_history_data(measurement_id, timestamp)?;
 
-- 
2.43.0


From 493211f90318c8f6529c9fb271abac4061ea5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 20/31] fix: a refused handshake is an error

The status of the receiver was ignored, so a sender was returned although
the receiver had refused the connection.
---
 tsfile-writer/src/sync/sync_sender.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..ed38af8 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -118,8 +118,9 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            // The receiver refuses with a negative code
+            Ok(status) if status.code >= 0 => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From 2547b276443a7d5388b11982e0461e0ddff84922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 21/31] fix: a sync session sends the given file and reports
 refusals

The session read the file under its remote name, panicked on most errors
and ended successfully although the receiver had rejected the data.
---
 tsfile-writer/src/sync/sync_sender.rs | 64 ++++++++++++++-------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index ed38af8..e03fe92 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -1,4 +1,5 @@
 use std::fs;
+use std::path::Path;
 
 use pnet::datalink;
 use sha2::Digest;
@@ -14,7 +15,9 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{
+    ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient,
+};
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
@@ -36,6 +39,9 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    FileError,
+    SchemaError,
+    TransferRefused,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -131,50 +137,48 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
+        Self::accepted(self.client.start_sync()?)?;
+        Self::accepted(self.client.init(std::string::String::from(storage_group))?)?;
 
         // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
+        Self::accepted(
+            self.client
+                .init_sync_data(std::string::String::from("mlog.bin"))?,
+        )?;
 
         // Create the mlog
         let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
+            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::SchemaError)?;
 
-        self.client.sync_data(mlog_bytes.clone())?;
+        Self::accepted(self.client.sync_data(mlog_bytes.clone())?)?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
         println!("Digest of Sender: {}", digest);
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        Self::accepted(self.client.check_data_digest(digest)?)?;
 
-        let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
+        // The receiver expects the name of the file without its folder
+        let basename = Path::new(filename)
+            .file_name()
+            .ok_or(SyncSenderError::FileError)?;
+        let remote_filename = format!("0_0_{}", basename.to_string_lossy()); // 1654074550252-1-0-0.tsfile";
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+        Self::accepted(self.client.init_sync_data(remote_filename)?)?;
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::FileError)?;
+        Self::accepted(self.client.sync_data(bytes.clone())?)?;
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
+        Self::accepted(self.client.check_data_digest(digest)?)?;
+        Self::accepted(self.client.end_sync()?)?;
+        Ok(())
+    }
+
+    /// The receiver refuses a step with a negative code
+    #[allow(dead_code)]
+    fn accepted(status: SyncStatus) -> Result<(), SyncSenderError> {
+        if status.code < 0 {
+            return Err(SyncSenderError::TransferRefused);
         }
-        self.client.end_sync()?;
         Ok(())
     }
 
-- 
2.43.0


From 044157c696278e09dded858dd468ca3acf4dbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 22/31] verif: hooks behind cfg(tsfile_verif) for forced
 flushes and sync internals

---
 tsfile-writer/src/sync/mod.rs             | 19 +++++++++++++++
 tsfile-writer/src/sync/sync_sender.rs     | 28 +++++++++++++++++++++++
 tsfile-writer/src/writer/mod.rs           |  2 ++
 tsfile-writer/src/writer/tsfile_writer.rs |  4 ++++
 tsfile-writer/src/writer/verif_hooks.rs   | 17 ++++++++++++++
 5 files changed, 70 insertions(+)
 create mode 100644 tsfile-writer/src/writer/verif_hooks.rs

diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index 1daaf15..ea22d0b 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -8,3 +8,22 @@ mod mlog;
 #[allow(clippy::module_inception)] // is not exported
 mod sync;
 pub mod sync_sender;
+
+/// Hooks for runtime verification, only built with `--cfg tsfile_verif`
+#[cfg(tsfile_verif)]
+pub mod verif_hooks {
+    pub use super::mlog::MLog;
+    pub use super::sync::*;
+    use crate::writer::errors::TsFileError;
+
+    pub fn mlog_set_storage_group(log: &mut MLog, path: &str) -> Result<(), TsFileError> {
+        log.set_storage_group_plan(path)
+    }
+
+    pub fn mlog_flush(
+        log: &mut MLog,
+        writer: &mut dyn std::io::Write,
+    ) -> Result<usize, std::io::Error> {
+        log.flush(writer)
+    }
+}
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index e03fe92..b177a5e 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -245,6 +245,34 @@ impl
     }
 }
 
+/// Hooks for runtime verification, only built with `--cfg tsfile_verif`
+#[cfg(tsfile_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub type TcpSyncSender = SyncSender<
+        TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
+        TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
+    >;
+
+    pub fn sync(
+        sender: &mut TcpSyncSender,
+        filename: &str,
+        storage_group: &str,
+        schema: Schema,
+    ) -> Result<(), SyncSenderError> {
+        sender.sync(filename, storage_group, schema)
+    }
+
+    pub fn write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
+        TcpSyncSender::write_mlog(storage_group, schema)
+    }
+
+    pub fn calculate_digest(data: &[u8]) -> String {
+        TcpSyncSender::calculate_digest(data)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::sync::sync_sender::SyncSender;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 2a6c024..b7b036d 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -105,6 +105,8 @@ pub mod ts_file_config;
 mod tsfile_io_writer;
 pub mod tsfile_writer;
 mod utils;
+#[cfg(tsfile_verif)]
+pub mod verif_hooks;
 
 use crate::writer::chunk_writer::ChunkMetadata;
 use crate::writer::compression::CompressionType;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 8a41077..664c710 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -196,6 +196,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
+        #[cfg(tsfile_verif)]
+        if crate::writer::verif_hooks::take_forced_flush() {
+            return self.flush_all_chunk_groups();
+        }
         if self.record_count >= self.record_count_for_next_mem_check {
             let mem_size = self.calculate_mem_size_for_all_groups();
             log::trace!("Memcount calculated: {}", mem_size);
diff --git a/tsfile-writer/src/writer/verif_hooks.rs b/tsfile-writer/src/writer/verif_hooks.rs
new file mode 100644
index 0000000..fc6e0fb
--- /dev/null
+++ b/tsfile-writer/src/writer/verif_hooks.rs
@@ -0,0 +1,17 @@
+//! Hooks for runtime verification, only built with `--cfg tsfile_verif`
+use std::cell::Cell;
+
+thread_local! {
+    static FORCED_FLUSH: Cell<bool> = Cell::new(false);
+}
+
+/// The next memory check of a writer on this thread flushes all chunk groups,
+/// as it does when the size threshold is exceeded
+pub fn force_flush() {
+    FORCED_FLUSH.with(|f| f.set(true));
+}
+
+/// Resets the request and tells if there was one
+pub fn take_forced_flush() -> bool {
+    FORCED_FLUSH.with(|f| f.replace(false))
+}
-- 
2.43.0


From d48335643ce377aa02ec941204ea730f62b84f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 23/31] fix: leave the test helper as it was

---
 tsfile-writer/src/writer/test_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/test_utils.rs b/tsfile-writer/src/writer/test_utils.rs
index b26d253..376e28b 100644
--- a/tsfile-writer/src/writer/test_utils.rs
+++ b/tsfile-writer/src/writer/test_utils.rs
@@ -35,5 +35,7 @@ pub fn write_ts_file<'a, F: FnOnce(&mut TsFileWriter<WriteWrapper<File>>)>(
     test_code(&mut writer);
 
     // writer.flush();
-    writer.close()
+    writer.close();
+
+    Ok(())
 }
-- 
2.43.0


From ab6924f021cfc12c3248fa8b312f7809a614d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 24/31] fix: measure the memory used at least every 2^20 points

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 664c710..33e38bf 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -12,6 +12,8 @@ use std::collections::{BTreeMap, HashMap};
 use std::fs::{create_dir_all, File};
 
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
+/// The memory used is measured at least that often, as points may become larger
+const MAX_RECORD_COUNT_BETWEEN_MEM_CHECKS: u32 = 1024 * 1024;
 
 /// Class defined to hold a datapoint for writing into a given device.
 /// Consists of a measurement_id and a value
@@ -213,6 +215,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
                     * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
                     / mem_size as u64)
+                    .min(MAX_RECORD_COUNT_BETWEEN_MEM_CHECKS as u64)
                     as u32;
                 return self.flush_all_chunk_groups();
             } else {
@@ -221,6 +224,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
                     * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
                     / mem_size as u64)
+                    .min(self.record_count as u64 + MAX_RECORD_COUNT_BETWEEN_MEM_CHECKS as u64)
                     as u32;
                 log::trace!(
                     "Next record count for check {}",
-- 
2.43.0


From 961fa84f28ff249132130c1f47e0c02c71f883ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:36 +0000
Subject: [PATCH 25/31] fix: skip unknown fields in the arguments of the sync
 check call

---
 tsfile-writer/src/sync/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync.rs b/tsfile-writer/src/sync/sync.rs
index 7a2bf70..ca90be9 100644
--- a/tsfile-writer/src/sync/sync.rs
+++ b/tsfile-writer/src/sync/sync.rs
@@ -869,7 +869,7 @@ impl SyncServiceCheckArgs {
       }
       let field_id = field_id(&field_ident)?;
       match field_id {
-        neg1 => {
+        -1 => {
           let val = ConfirmInfo::read_from_in_protocol(i_prot)?;
           f_neg1 = Some(val);
         },
-- 
2.43.0


From c2cc3d0ff399a6cb9fb45542a0512956867d9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:19 +0000
Subject: [PATCH 26/31] verif: hooks can be left out one by one

---
 tsfile-writer/src/sync/sync_sender.rs     | 1 +
 tsfile-writer/src/writer/tsfile_writer.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index b177a5e..ff1d8ce 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -268,6 +268,7 @@ pub mod verif_hooks {
         TcpSyncSender::write_mlog(storage_group, schema)
     }
 
+    #[cfg(not(tsfile_verif_no_digest))]
     pub fn calculate_digest(data: &[u8]) -> String {
         TcpSyncSender::calculate_digest(data)
     }
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 33e38bf..748590a 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -198,7 +198,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-        #[cfg(tsfile_verif)]
+        #[cfg(all(tsfile_verif, not(tsfile_verif_no_flush)))]
         if crate::writer::verif_hooks::take_forced_flush() {
             return self.flush_all_chunk_groups();
         }
-- 
2.43.0


From 74d22151399f0e158420c0c1c96e5e51ff9d25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:04 +0000
Subject: [PATCH 27/31] fix: the sync sender panicked when standard output
 could not be written

---
 tsfile-writer/src/sync/sync_sender.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index ff1d8ce..b8ad36d 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -153,7 +153,7 @@ impl
         Self::accepted(self.client.sync_data(mlog_bytes.clone())?)?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
-        println!("Digest of Sender: {}", digest);
+        log::info!("Digest of Sender: {}", digest);
 
         Self::accepted(self.client.check_data_digest(digest)?)?;
 
@@ -167,7 +167,7 @@ impl
         let bytes = fs::read(filename).map_err(|_| SyncSenderError::FileError)?;
         Self::accepted(self.client.sync_data(bytes.clone())?)?;
         let digest = Self::calculate_digest(&bytes);
-        println!("Digest of Sender: {}", digest);
+        log::info!("Digest of Sender: {}", digest);
         Self::accepted(self.client.check_data_digest(digest)?)?;
         Self::accepted(self.client.end_sync()?)?;
         Ok(())
@@ -224,16 +224,16 @@ impl
         // Read UUID
         match fs::read_to_string("uuid.lock") {
             Ok(content) => {
-                println!("Using UUID from file: {}", content);
+                log::info!("Using UUID from file: {}", content);
                 Ok(content)
             }
             Err(_) => {
-                println!("Generating UUID...");
+                log::info!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                 // Save to file
                 match fs::write("uuid.lock", &uuid) {
                     Ok(_) => {
-                        println!("UUID saved successfully")
+                        log::info!("UUID saved successfully")
                     }
                     Err(_) => {
                         return Err(SyncSenderError::UnableGenerateUuid);
-- 
2.43.0


From 34267157c51280968e5c54039fdc11f4e3745fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:05 +0000
Subject: [PATCH 28/31] fix: a failure or crash while the identifier was stored
 left an empty one that later connections announced

---
 tsfile-writer/src/sync/sync_sender.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index b8ad36d..bfc52e3 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -1,4 +1,5 @@
 use std::fs;
+use std::io::ErrorKind;
 use std::path::Path;
 
 use pnet::datalink;
@@ -230,11 +231,27 @@ impl
             Err(_) => {
                 log::info!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
-                // Save to file
-                match fs::write("uuid.lock", &uuid) {
+                // Save to file, which appears with its whole content or not at all, and
+                // only if nobody else saved one
+                let new_file = format!("uuid.lock.{}", uuid);
+                let saved = fs::write(&new_file, &uuid).and_then(|_| {
+                    match fs::hard_link(&new_file, "uuid.lock") {
+                        // e.g. not supported by the file system
+                        Err(e) if e.kind() != ErrorKind::AlreadyExists => {
+                            fs::rename(&new_file, "uuid.lock")
+                        }
+                        result => result,
+                    }
+                });
+                let _ = fs::remove_file(&new_file);
+                match saved {
                     Ok(_) => {
                         log::info!("UUID saved successfully")
                     }
+                    Err(e) if e.kind() == ErrorKind::AlreadyExists => {
+                        return fs::read_to_string("uuid.lock")
+                            .map_err(|_| SyncSenderError::UnableGenerateUuid);
+                    }
                     Err(_) => {
                         return Err(SyncSenderError::UnableGenerateUuid);
                     }
-- 
2.43.0


From d44c0fc1a99df5e822df668bf1bc62b4d81a8d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:48 +0000
Subject: [PATCH 29/31] verif: hooks can be left out one by one and take the
 schema as the code does

---
 tsfile-writer/src/sync/mod.rs         |  4 ++++
 tsfile-writer/src/sync/sync_sender.rs | 24 ++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/mod.rs b/tsfile-writer/src/sync/mod.rs
index ea22d0b..fdcdb02 100644
--- a/tsfile-writer/src/sync/mod.rs
+++ b/tsfile-writer/src/sync/mod.rs
@@ -12,14 +12,18 @@ pub mod sync_sender;
 /// Hooks for runtime verification, only built with `--cfg tsfile_verif`
 #[cfg(tsfile_verif)]
 pub mod verif_hooks {
+    #[cfg(not(tsfile_verif_no_log))]
     pub use super::mlog::MLog;
     pub use super::sync::*;
+    #[cfg(not(tsfile_verif_no_log))]
     use crate::writer::errors::TsFileError;
 
+    #[cfg(not(tsfile_verif_no_log))]
     pub fn mlog_set_storage_group(log: &mut MLog, path: &str) -> Result<(), TsFileError> {
         log.set_storage_group_plan(path)
     }
 
+    #[cfg(not(tsfile_verif_no_log))]
     pub fn mlog_flush(
         log: &mut MLog,
         writer: &mut dyn std::io::Write,
diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index bfc52e3..9f032b7 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -272,17 +272,37 @@ pub mod verif_hooks {
         TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
     >;
 
+    /// A schema as a parameter, by value or by reference
+    #[allow(dead_code)]
+    trait Given<T> {
+        fn given(self) -> T;
+    }
+
+    impl<'a, 'b> Given<Schema<'a>> for &'b Schema<'a> {
+        fn given(self) -> Schema<'a> {
+            self.clone()
+        }
+    }
+
+    impl<'a, 'b> Given<&'b Schema<'a>> for &'b Schema<'a> {
+        fn given(self) -> &'b Schema<'a> {
+            self
+        }
+    }
+
+    #[cfg(not(tsfile_verif_no_session))]
     pub fn sync(
         sender: &mut TcpSyncSender,
         filename: &str,
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        sender.sync(filename, storage_group, schema)
+        sender.sync(filename, storage_group, (&schema).given())
     }
 
+    #[cfg(not(tsfile_verif_no_mlog))]
     pub fn write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
-        TcpSyncSender::write_mlog(storage_group, schema)
+        TcpSyncSender::write_mlog(storage_group, (&schema).given())
     }
 
     #[cfg(not(tsfile_verif_no_digest))]
-- 
2.43.0


From 7f427ea52373e23973e1950414ec0d9d18972bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:50 +0000
Subject: [PATCH 30/31] fix: the Python wrapper declares the C functions with
 their real types

---
 tsfile-writer-c/rust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer-c/rust.py b/tsfile-writer-c/rust.py
index ec61128..ae5addd 100644
--- a/tsfile-writer-c/rust.py
+++ b/tsfile-writer-c/rust.py
@@ -10,11 +10,11 @@ ffibuilder.cdef("""
     typedef void* ts_file_writer;
     typedef void* amp_str;
     
-    schema schema_simple(char* device_id, char* measurement_id, int data_type, int encoding, int compression);
+    schema schema_simple(char* device_id, char* measurement_id, uint8_t data_type, uint8_t encoding, uint8_t compression);
     void schema_free(schema s);
     
     ts_file_writer file_writer_new(char* filename, schema s);
-    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int timestamp, int value);
+    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int64_t timestamp, int32_t value);
     void file_writer_close(ts_file_writer writer);
 """)
 
-- 
2.43.0


From 14b5a01d6c920c74abbacc10274f2a087b320f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:51 +0000
Subject: [PATCH 31/31] fix: the Python wrapper loads the library under the
 name it has on the platform

---
 tsfile-writer-c/rust.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer-c/rust.py b/tsfile-writer-c/rust.py
index ae5addd..76214ad 100644
--- a/tsfile-writer-c/rust.py
+++ b/tsfile-writer-c/rust.py
@@ -1,3 +1,4 @@
+import sys
 import time
 from enum import IntEnum
 
@@ -18,7 +19,13 @@ ffibuilder.cdef("""
     void file_writer_close(ts_file_writer writer);
 """)
 
-lib = ffibuilder.dlopen("../target/release/libtsfile_writer_c.dylib")
+# Cargo names the library as is usual on the platform
+lib_name = {
+    "darwin": "libtsfile_writer_c.dylib",
+    "win32": "tsfile_writer_c.dll",
+}.get(sys.platform, "libtsfile_writer_c.so")
+
+lib = ffibuilder.dlopen("../target/release/" + lib_name)
 
 
 class VariableHolder(object):
-- 
2.43.0

