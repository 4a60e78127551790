From 4061b2b4f892e02b7b7f73b6d85f57a2a2352dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 01/12] fix: write the magic and the postscript length with
 write_all

Write::write may accept only part of the buffer or be interrupted; both were
ignored, so a short write of the header lost bytes of the magic and shifted
every offset, a dropped length byte made the file unreadable, and an
interruption failed the writer.
---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From 90daad9f90e2b3f187d7ecd3c38b8ecd746acfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 02/12] fix: refuse further calls after a failed write_batch

A stripe whose write failed part way has already emitted bytes that no offset
accounts for and has emptied some of its streams, and a rejected batch leaves
its rows counted. Continuing with such a writer, finish returned Ok for a
corrupt file.
---
 src/writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5dc7ec5..19ac0ab 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -1,7 +1,7 @@
 use super::protos::orc_proto;
 use super::schema::Schema;
 use protobuf::{CodedOutputStream, Message, RepeatedField};
-use std::io::{Result, Write};
+use std::io::{Error, ErrorKind, Result, Write};
 use std::slice;
 
 use count_write::CountWrite;
@@ -57,6 +57,8 @@ pub struct Writer<W: Write> {
     config: Config,
     current_stripe: Stripe,
     stripe_infos: Vec<StripeInfo>,
+    // Set while a call is in progress, and left set by a call that fails or panics.
+    failed: bool,
 }
 
 impl<W: Write> Writer<W> {
@@ -68,6 +70,7 @@ impl<W: Write> Writer<W> {
             current_stripe: Stripe::new(schema, &config),
             config,
             stripe_infos: Vec::new(),
+            failed: false,
         };
         writer.write_header()?;
         Ok(writer)
@@ -81,15 +84,26 @@ impl<W: Write> Writer<W> {
         &self.inner.inner
     }
 
+    fn check_not_failed(&self) -> Result<()> {
+        if self.failed {
+            return Err(Error::new(ErrorKind::Other, "an earlier call on this ORC writer failed"));
+        }
+        Ok(())
+    }
+
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
+        self.check_not_failed()?;
+        self.failed = true;
         self.current_stripe.write_batch(num_rows)?;
         if self.current_stripe.data.estimated_size() > self.config.stripe_size {
             self.current_stripe.finish(&mut self.inner, &mut self.stripe_infos)?;
         }
+        self.failed = false;
         Ok(())
     }
 
     pub fn finish(mut self) -> Result<W> {
+        self.check_not_failed()?;
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
-- 
2.43.0


From bf3b59a0a9e7e0c7f7cbc58855f14ab9870cf658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 03/12] fix: reject finish when values were written but not
 covered by write_batch

Such values ended up in the column streams of the last stripe (or vanished if
it had no rows), and finish returned Ok for a file whose columns disagree
about the number of rows.
---
 src/writer.rs        | 1 +
 src/writer/stripe.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 19ac0ab..15aa702 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -104,6 +104,7 @@ impl<W: Write> Writer<W> {
 
     pub fn finish(mut self) -> Result<W> {
         self.check_not_failed()?;
+        self.current_stripe.verify_row_count();
         self.current_stripe
             .finish(&mut self.inner, &mut self.stripe_infos)?;
         let content_length = self.current_stripe.offset - Self::HEADER_LENGTH;
diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..2612bb3 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -48,10 +48,14 @@ impl Stripe {
 
     pub fn write_batch(&mut self, num_rows: u64) -> Result<()> {
         self.num_rows += num_rows;
-        self.data.verify_row_count(self.num_rows);
+        self.verify_row_count();
         Ok(())
     }
 
+    pub fn verify_row_count(&self) {
+        self.data.verify_row_count(self.num_rows);
+    }
+
     fn write_footer<W: Write>(&mut self, out: &mut W, stream_infos: &[StreamInfo]) -> Result<()> {
         let mut compressed_stream = CompressionStream::new(&self.config.compression);
         let mut coded_out = CodedOutputStream::new(&mut compressed_stream);
-- 
2.43.0


From b43f2418d0261afc5f9fc7894db47873a9ea7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 04/12] fix: include the last row group in stripe and file
 statistics

The statistics were collected before write_index_streams merged the row group
in progress, so up to a stride of rows was missing from the counts, bounds and
sums that readers use to skip stripes.
---
 src/writer/stripe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 2612bb3..92fb1b0 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -84,12 +84,14 @@ impl Stripe {
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
-        let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
 
+        // Only now do the stripe statistics include the last row group.
+        let mut statistics: Vec<Statistics> = Vec::new();
+        self.data.statistics(&mut statistics);
+
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
         
-- 
2.43.0


From eadd703fc3ce42615575c053408b1ed1748b9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 05/12] fix: do not overflow when encoding nanoseconds

The shift by three was done in 32 bits, so nanoseconds from 2^29 up that are
not a multiple of 100 lost their top bits.
---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From a42b93c75903502cdc04cc87fcf5a5f987bbf08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 06/12] fix: record timestamp statistics relative to the UNIX
 epoch

They were relative to the ORC origin in 2015, 45 years off.
---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..0810559 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,7 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From 2f718699d27d2dc2977b8b8d3b2a97fec2a913d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 07/12] fix: encode fractional seconds before 1970 as readers
 decode them

The ORC readers subtract one second from a timestamp before the UNIX epoch
with more than 999999 nanoseconds (ORC-763), and their writers store it one
second later to match; this writer did not, so such values read back one
second early.
---
 src/writer/data/timestamp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 0810559..732d7da 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -126,7 +126,9 @@ impl TimestampData {
         }
 
         self.streams.present.write(true);
-        self.streams.seconds.write(sec);
+        // Before 1970, readers take one second off if there is a fraction of a millisecond or more (ORC-763).
+        let before_epoch = sec < Self::EPOCH_SECONDS && nanos > 999999;
+        self.streams.seconds.write(if before_epoch { sec + 1 } else { sec });
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
-- 
2.43.0


From 5e7a93f2237143d62b8c187169418919f3d667d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 08/12] fix: never let a compression chunk exceed the block
 size

A value longer than the rest of the block plus one whole block made the buffer
grow past its capacity, which served as the block size from then on: readers
that size their buffers by the postscript reject or overrun on such chunks,
and lengths of 2^23 and more do not fit the chunk header.
---
 src/writer/compression.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..91706fb 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -94,6 +94,7 @@ struct BlockInfo {
 
 pub(crate) struct CompressionStream {
     compressor: Option<Box<dyn Compressor>>,
+    block_size: usize,
     buf: Buffer,
     output: Buffer,
     output_block_info: Vec<BlockInfo>,
@@ -120,6 +121,7 @@ impl CompressionStream {
     pub fn new(compression: &Compression) -> Self {
         CompressionStream {
             compressor: compression.compressor(),
+            block_size: compression.block_size().max(1),
             buf: Buffer::with_capacity(compression.block_size()),
             output: Buffer::new(),
             output_block_info: Vec::new(),
@@ -167,7 +169,7 @@ impl CompressionStream {
 
     #[inline(always)]
     pub fn write_u8(&mut self, b: u8) {
-        if self.buf.len() >= self.buf.capacity() {
+        if self.buf.len() >= self.block_size {
             self.finish_block();
             self.buf.write_u8(b);
         } else {
@@ -178,15 +180,14 @@ impl CompressionStream {
     #[inline(always)]
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
-                let i = self.buf.capacity() - self.buf.len();
+            let mut bytes = bytes;
+            while self.buf.len() + bytes.len() > self.block_size {
+                let i = self.block_size - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
+            self.buf.write_bytes(bytes);
         } else {
             self.buf.write_bytes(bytes);
         }
-- 
2.43.0


From 6b541820e5a5dd0e57720fb701f44be969f51c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 09/12] fix: reject a union tag equal to the number of variants
 before writing it

The range check was off by one; the call panicked on the count only after the
present flag and the tag had been written, leaving them in the stripe.
---
 src/writer/data/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/union.rs b/src/writer/data/union.rs
index 9f66a7c..89128ad 100644
--- a/src/writer/data/union.rs
+++ b/src/writer/data/union.rs
@@ -115,7 +115,7 @@ impl UnionData {
     }
 
     pub fn write(&mut self, tag: usize) {
-        if tag > self.child_counts.len() {
+        if tag >= self.child_counts.len() {
             panic!("tag ({}) out of range", tag);
         }
         self.streams.present.write(true);
-- 
2.43.0


From 550d46cb1bbb842d4bffb13c95d46590aed31403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 10/12] fix: reject list and map lengths whose total overflows

In builds without overflow checks the total wrapped around, so that a batch with
lengths that do not fit its child values was accepted.
---
 src/writer/data/list.rs | 4 +++-
 src/writer/data/map.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/list.rs b/src/writer/data/list.rs
index c106356..2a2950c 100644
--- a/src/writer/data/list.rs
+++ b/src/writer/data/list.rs
@@ -102,9 +102,11 @@ impl ListData {
     }
 
     pub fn write(&mut self, len: u64) {
+        let num_child_values = self.num_child_values.checked_add(len)
+            .expect("the total number of child values exceeds 64 bits");
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = num_child_values;
         self.row_group_stats.update();
         self.check_row_group();
     }
diff --git a/src/writer/data/map.rs b/src/writer/data/map.rs
index ca128fd..26a016c 100644
--- a/src/writer/data/map.rs
+++ b/src/writer/data/map.rs
@@ -113,9 +113,11 @@ impl MapData {
     }
 
     pub fn write(&mut self, len: u64) {
+        let num_child_values = self.num_child_values.checked_add(len)
+            .expect("the total number of child values exceeds 64 bits");
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = num_child_values;
         self.row_group_stats.update();
         self.check_row_group();
     }
-- 
2.43.0


From 8cf31fde045dd06588e50d8f645cfd98840a6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 11/12] fix: render the smallest 128-bit decimal sum

A sum of exactly -2^127 does not overflow, but negating it for rendering
does: finish panicked, or recorded a sum with two signs.
---
 src/writer/statistics/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/writer/statistics/decimal.rs b/src/writer/statistics/decimal.rs
index cda4aab..58d8e1a 100644
--- a/src/writer/statistics/decimal.rs
+++ b/src/writer/statistics/decimal.rs
@@ -67,13 +67,13 @@ impl DecimalStatistics {
         merge_sum(&mut self.sum, Some(x));
     }
 
-    pub fn format(&self, mut val: i128) -> String {
+    pub fn format(&self, val: i128) -> String {
         let mut out = String::new();
         if val < 0 {
             out.push_str("-");
-            val = -val;
         }
-        let modulus = 10i128.pow(self.scale);
+        let val = val.unsigned_abs();
+        let modulus = 10u128.pow(self.scale);
         let quo = val / modulus;
         let rem = val % modulus;
         write!(&mut out, "{}", quo).unwrap();
-- 
2.43.0


From c9dcb835dbc82526f5e65b2dd3cfc9ee31c7887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 12/12] fix: keep NaN out of the bounds of floating-point
 statistics

NaN compares with nothing. As the first value of a row group it stayed
that group's minimum and maximum, and merging the groups then dropped
the other values of the group: the stripe's bounds did not contain them.
---
 src/writer/statistics/double.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/writer/statistics/double.rs b/src/writer/statistics/double.rs
index f107b95..32ab1ed 100644
--- a/src/writer/statistics/double.rs
+++ b/src/writer/statistics/double.rs
@@ -47,8 +47,11 @@ impl DoubleStatistics {
     pub fn update(&mut self, x: f64) {
         self.num_values += 1;
         self.num_present += 1;
-        merge_min(&mut self.min, Some(x));
-        merge_max(&mut self.max, Some(x));
+        // NaN compares with nothing: as a bound it would hide the other values.
+        if !x.is_nan() {
+            merge_min(&mut self.min, Some(x));
+            merge_max(&mut self.max, Some(x));
+        }
         self.sum += x;
     }
 }
-- 
2.43.0

