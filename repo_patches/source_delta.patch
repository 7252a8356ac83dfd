From 92a72f4cfdb3352eb382fff131d62ce640b87ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 01/47] fix: skip seeds whose weight has become exactly zero

Seeds with non-negative weight are to be ignored, but a weight of exactly
zero (as after resampling a cell with vanishing total weight) was not.
---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From fc06d6a0944a8dfcb5f539319017e78ab8985592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 02/47] fix: rebuild a cell if its weights changed before it
 was resampled

The members of a cell were determined from weights read without holding
any lock. If another thread resampled some of them before they were
locked, the cell could end up with a negative weight although more
neighbours were available, leaving negative-weight events behind (and
the recorded cell weight was wrong). Also, the seed weight could become
non-negative between the check in the resampler and the construction of
the cell.
---
 src/cell.rs      | 66 ++++++++++++++++++++++++++++++++++++++++--------
 src/resampler.rs | 17 +++++++------
 2 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index c84d7cf..a48d2f1 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::event::{Event, Weights};
 use crate::traits::NeighbourSearch;
 
@@ -29,15 +31,19 @@ impl<'a> Cell<'a> {
         N: NeighbourSearch,
         <N as NeighbourSearch>::Iter: Iterator<Item = (usize, N64)>,
     {
+        // another thread may have changed the seed weight in the meantime,
+        // so it is not necessarily negative
         let mut weight_sum = events[seed_idx].weight();
-        debug_assert!(weight_sum < 0.);
         debug!("Cell seed {seed_idx}  with weight {:e}", weight_sum);
         let mut members = vec![seed_idx];
         let mut radius = n64(0.);
 
-        let neighbours = neighbour_search.nearest(&seed_idx);
+        let mut neighbours = neighbour_search.nearest(&seed_idx);
 
-        for (next_idx, dist) in neighbours {
+        while weight_sum < 0. {
+            let Some((next_idx, dist)) = neighbours.next() else {
+                break;
+            };
             trace!(
                 "adding event {next_idx} with distance {dist}, weight {:e} to cell",
                 events[next_idx].weight()
@@ -45,9 +51,6 @@ impl<'a> Cell<'a> {
             weight_sum += events[next_idx].weight();
             members.push(next_idx);
             radius = dist;
-            if weight_sum >= 0. {
-                break;
-            }
         }
         Self {
             events,
@@ -64,12 +67,20 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Returns `false` without changing any weights if the cell has
+    /// to be constructed anew because another thread changed the
+    /// weights of its members.
     #[cfg(feature = "multiweight")]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::{Deref, DerefMut};
 
+        let order = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let mut member_weights = self.write_lock_weights();
+        if !self.update_weight_sum(&order, &member_weights) {
+            return false;
+        }
         let (first, rest) = member_weights.split_first_mut().unwrap();
 
         let mut avg_wts = std::mem::take(first.deref_mut());
@@ -84,6 +95,7 @@ impl<'a> Cell<'a> {
             idx.copy_from(&avg_wts);
         }
         *first.deref_mut() = avg_wts;
+        true
     }
 
     /// Resample
@@ -93,12 +105,20 @@ impl<'a> Cell<'a> {
     ///
     /// The current implementation sets all weights to the mean weight
     /// over the cell.
+    ///
+    /// Returns `false` without changing any weights if the cell has
+    /// to be constructed anew because another thread changed the
+    /// weights of its members.
     #[cfg(not(feature = "multiweight"))]
-    pub fn resample(&mut self) {
+    pub fn resample(&mut self) -> bool {
         use std::ops::Deref;
 
+        let order = self.members.clone();
         self.members.sort_unstable(); // sort to prevent deadlocks
         let member_weights = self.write_lock_weights();
+        if !self.update_weight_sum(&order, &member_weights) {
+            return false;
+        }
 
         let total_wt: N64 =
             member_weights.iter().map(|w| w.deref().central()).sum();
@@ -106,6 +126,7 @@ impl<'a> Cell<'a> {
         for mut wt in member_weights {
             *wt = Weights::new_single(avg_wt);
         }
+        true
     }
 
     /// Number of events in cell
@@ -138,10 +159,35 @@ impl<'a> Cell<'a> {
         self.members.iter().map(move |idx| &self.events[*idx])
     }
 
-    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'_, Weights>> {
+    fn write_lock_weights(&self) -> Vec<RwLockWriteGuard<'a, Weights>> {
+        let events = self.events;
         self.members
             .iter()
-            .map(|i| self.events[*i].weights.write())
+            .map(|i| events[*i].weights.write())
             .collect()
     }
+
+    // Update the sum of the (locked) member weights
+    //
+    // The weights are added up in the given `order` of the members. If
+    // this is the same order as in the construction of the cell the
+    // result can only differ if the weights changed.
+    //
+    // Returns `false` if this is not a valid cell: either there was no
+    // need for a cell, or more members would have been needed to
+    // compensate the negative weights.
+    fn update_weight_sum(
+        &mut self,
+        order: &[usize],
+        weights: &[RwLockWriteGuard<'a, Weights>],
+    ) -> bool {
+        let is_complete = self.weight_sum >= 0.;
+        let weights: HashMap<_, _> = self
+            .members
+            .iter()
+            .zip(weights.iter().map(|w| w.central()))
+            .collect();
+        self.weight_sum = order.iter().map(|idx| weights[idx]).sum();
+        !is_complete || (self.weight_sum >= 0. && self.nmembers() > 1)
+    }
 }
diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..7d9a5ab 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,15 +93,16 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() >= 0. {
-                    return;
+                while events[seed].weight() < 0. {
+                    trace!("New cell around event {}", events[seed].id());
+                    let mut cell =
+                        Cell::new(&events, seed, &neighbour_search);
+                    if cell.resample() {
+                        self.observer.observe_cell(&cell);
+                        progress.inc(1);
+                        break;
+                    }
                 }
-                trace!("New cell around event {}", events[seed].id());
-                let mut cell =
-                    Cell::new(&events, seed, &neighbour_search);
-                cell.resample();
-                self.observer.observe_cell(&cell);
-                progress.inc(1);
             });
             progress.finish();
             debug!("Combining cell observations");
-- 
2.43.0


From a534d90cfe91d53c70c9aaf8b057044b7222150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 03/47] fix: set weights of events discarded by unweighting to
 zero

The records of discarded events kept their original weights, so the
sum of weights was not preserved. Without the multiweight feature,
events without identified particles lost their weight.
---
 src/cres.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..0ae8b06 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -185,6 +185,20 @@ where
         let nevents = events.len();
         info!("Read {nevents} events");
 
+        // Final weights. By default, the weights of events without
+        // identified particles are left as they are and all others
+        // vanish, i.e. events that are discarded have zero weight
+        let mut weights = vec![crate::event::Weights::default(); nevents];
+        for event in &events {
+            let mut wt = event.weights.read().clone();
+            if !event.outgoing().is_empty() {
+                wt.iter_mut().for_each(|w| *w = n64(0.));
+                weights[event.id] = wt;
+            } else if !weights[event.id].is_empty() {
+                weights[event.id] = wt;
+            }
+        }
+
         events.retain(|e| !e.outgoing().is_empty());
         if events.len() < nevents {
             warn!(
@@ -217,7 +231,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From fa22290037dbcc12e18e019fe47bd4a7b5a7fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 04/47] fix: do not divide by a vanishing sum of weights in
 unweighting

If all events are discarded or their weights cancel the total weight
cannot be preserved. All weights ended up infinite or not a number.
---
 src/unweight.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..cd7fddb 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -1,6 +1,7 @@
 use crate::event::Event;
 use crate::traits::Unweight;
 
+use log::warn;
 use noisy_float::prelude::*;
 use rand::{
     distr::{Distribution, Uniform},
@@ -64,6 +65,10 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
+        if final_wt_sum == 0. {
+            warn!("Cannot preserve the sum of weights {orig_wt_sum:e}: sum after unweighting is zero");
+            return Ok(events);
+        }
         let reweight = orig_wt_sum / final_wt_sum;
         events
             .par_iter_mut()
-- 
2.43.0


From db007ff7632d7264cd58e929ef2e7f0b946990be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 05/47] fix: keep the largest instead of the smallest cells
 when combining collectors

---
 src/cell_collector.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..604dea1 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -169,6 +169,13 @@ impl CellCollector {
             "combining {} + {} cell observations",
             self.count, other.count
         );
+        self.first.extend(
+            other
+                .first
+                .into_iter()
+                .map(|(id, ev)| (id + self.count, ev)),
+        );
+        self.first.truncate(NCELLS);
         self.largest_by_members.extend(
             other
                 .largest_by_members
@@ -207,9 +214,8 @@ impl CellCollector {
 }
 
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    // keep the largest keys
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From 33c706d95053120f7ee2b382bc43e2e9b8b2b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 06/47] fix: do not cut off the end of event files without
 events

---
 src/hepmc2.rs       | 4 +++-
 src/stripper_xml.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..8a9e6fc 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -109,7 +109,9 @@ fn init_source(
             break;
         }
     }
-    header.pop();
+    if header.ends_with(b"\nE") {
+        header.pop();
+    }
     Ok((header, buf))
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..8c70990 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -530,7 +530,9 @@ fn init_source(
             break;
         }
     }
-    header.truncate(header.len() - b"<se".len());
+    if header.ends_with(b"<se") {
+        header.truncate(header.len() - b"<se".len());
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From 2eb8ed84d62e1764520316be78efe7fb6d1712fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 07/47] fix: updating weights past the end or after a rewind

---
 src/io.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..6a6bfb4 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -621,16 +621,25 @@ impl UpdateWeights for CombinedFileIO {
         &mut self,
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
-        while self.current_file_idx < self.files.len() {
-            let current = self.current.as_mut().unwrap();
+        if self.files.is_empty() {
+            return Ok(false);
+        }
+        loop {
+            let Some(current) = self.current.as_mut() else {
+                // we have been rewound
+                self.open(0)?;
+                continue;
+            };
             let res = current.update_next_weights(weights)?;
             if res {
                 return Ok(true);
             }
             current.finish_weight_update()?;
+            if self.current_file_idx + 1 == self.files.len() {
+                return Ok(false);
+            }
             self.open(self.current_file_idx + 1)?;
         }
-        Ok(false)
     }
 }
 
-- 
2.43.0


From 5c691cb89fd298c61913af1d972ad79f01640a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 08/47] fix: report errors when output files are finished, and
 end lz4 streams

---
 src/bin/classify-events.rs |  14 ++---
 src/bin/partition.rs       |   6 +-
 src/compression.rs         | 113 +++++++++++++++++++++++++++++++++++--
 src/hepmc2.rs              |  11 +++-
 src/lhef.rs                |   8 ++-
 src/stripper_xml.rs        |  11 +++-
 6 files changed, 143 insertions(+), 20 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..9d2544f 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -10,7 +10,7 @@ use std::{
 use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -144,10 +144,10 @@ impl Classifier {
             writers[region].write_all(event.as_bytes())?;
             event_progress.inc(1);
         }
-        for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+        for mut writer in writers {
+            write_footer(&mut writer, format)
+                .with_context(|| "Failed to write event file footer")?;
+            writer.finish().with_context(|| "Failed to write event file")?;
         }
         Ok(())
     }
@@ -241,7 +241,7 @@ fn make_byte_writers(
     outdir: &Path,
     file: &Path,
     compression: Option<Compression>,
-) -> Result<Vec<Box<dyn Write>>> {
+) -> Result<Vec<Box<dyn FinishWrite>>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..044c245 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -117,9 +117,11 @@ fn main() -> Result<()> {
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-    let out = compress_writer(out, opt.compression)
+    let mut out = compress_writer(out, opt.compression)
         .with_context(|| format!("Failed to compress output to {outfile:?}"))?;
-    serde_yaml::to_writer(out, &(clustering, partition))?;
+    serde_yaml::to_writer(&mut out, &(clustering, partition))?;
+    out.finish()
+        .with_context(|| format!("Failed to write {outfile:?}"))?;
     info!("Done");
     Ok(())
 }
diff --git a/src/compression.rs b/src/compression.rs
index f99529b..7ecc43e 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -16,11 +16,21 @@ pub enum Compression {
     Zstd(u8),
 }
 
+/// A writer that has to be finished after everything is written
+pub trait FinishWrite: Write {
+    /// Write everything that is still pending
+    ///
+    /// This includes the end of compressed streams. Nothing may be
+    /// written afterwards. If the writer is dropped without calling
+    /// this method, any errors are ignored.
+    fn finish(&mut self) -> std::io::Result<()>;
+}
+
 /// Convert into a writer that compresses to the given format
 pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
     compression: Option<Compression>,
-) -> Result<Box<dyn Write + 'a>, std::io::Error> {
+) -> Result<Box<dyn FinishWrite + 'a>, std::io::Error> {
     match compression {
         Some(Compression::Bzip2) => {
             let encoder = BzEncoder::new(writer, bzip2::Compression::best());
@@ -36,12 +46,107 @@ pub fn compress_writer<'a, W: 'a + Write>(
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Ok(Box::new(Lz4Writer(Some(encoder))))
         }
         Some(Compression::Zstd(lvl)) => {
             let encoder = zstd::Encoder::new(writer, lvl.into())?;
-            Ok(Box::new(encoder.auto_finish()))
+            Ok(Box::new(ZstdWriter(encoder)))
         }
-        None => Ok(Box::new(writer)),
+        None => Ok(Box::new(PlainWriter(writer))),
+    }
+}
+
+impl<W: Write> FinishWrite for BzEncoder<W> {
+    fn finish(&mut self) -> std::io::Result<()> {
+        self.try_finish()?;
+        self.get_mut().flush()
+    }
+}
+
+impl<W: Write> FinishWrite for GzEncoder<W> {
+    fn finish(&mut self) -> std::io::Result<()> {
+        self.try_finish()?;
+        self.get_mut().flush()
+    }
+}
+
+struct PlainWriter<W>(W);
+
+impl<W: Write> Write for PlainWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Write> FinishWrite for PlainWriter<W> {
+    fn finish(&mut self) -> std::io::Result<()> {
+        self.flush()
+    }
+}
+
+// the encoder has to be consumed to finish the stream
+struct Lz4Writer<W: Write>(Option<lz4::Encoder<W>>);
+
+impl<W: Write> Lz4Writer<W> {
+    fn encoder(&mut self) -> std::io::Result<&mut lz4::Encoder<W>> {
+        self.0.as_mut().ok_or_else(|| {
+            std::io::Error::other("lz4 stream is already finished")
+        })
+    }
+}
+
+impl<W: Write> Write for Lz4Writer<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.encoder()?.write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.encoder()?.flush()
+    }
+}
+
+impl<W: Write> FinishWrite for Lz4Writer<W> {
+    fn finish(&mut self) -> std::io::Result<()> {
+        let Some(encoder) = self.0.take() else {
+            return Ok(());
+        };
+        let (mut writer, res) = encoder.finish();
+        res?;
+        writer.flush()
+    }
+}
+
+impl<W: Write> Drop for Lz4Writer<W> {
+    fn drop(&mut self) {
+        let _ = self.finish();
+    }
+}
+
+struct ZstdWriter<'a, W: Write>(zstd::Encoder<'a, W>);
+
+impl<W: Write> Write for ZstdWriter<'_, W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl<W: Write> FinishWrite for ZstdWriter<'_, W> {
+    fn finish(&mut self) -> std::io::Result<()> {
+        self.0.do_finish()?;
+        self.0.get_mut().flush()
+    }
+}
+
+impl<W: Write> Drop for ZstdWriter<'_, W> {
+    fn drop(&mut self) {
+        let _ = self.finish();
     }
 }
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 8a9e6fc..f0c256c 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -11,7 +11,7 @@ use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
@@ -119,7 +119,7 @@ fn init_source(
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
 }
 
@@ -235,9 +235,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -248,6 +250,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..bb32956 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -16,7 +16,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
@@ -93,7 +93,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
 }
 
@@ -282,6 +282,7 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
@@ -300,7 +301,8 @@ impl UpdateWeights for FileIO {
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
         let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
         self.into_io_error(res.map_err(WriteError::IO))?;
-        Ok(())
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
     }
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 8c70990..731f863 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -23,7 +23,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
@@ -133,7 +133,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: Box<dyn FinishWrite>,
     _weight_names: Vec<String>,
     weight_scale: f64,
 }
@@ -657,9 +657,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -670,6 +672,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From e366eac6507767062ea5b2d8323f842a6f75e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 09/47] fix: keep everything after the last event in LHEF files

---
 src/lhef.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index bb32956..9c9d69a 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -33,6 +33,7 @@ pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
     header: Vec<u8>,
+    footer: Vec<u8>,
 }
 
 impl FileReader {
@@ -43,6 +44,7 @@ impl FileReader {
             source_path,
             source,
             header,
+            footer: Vec::new(),
         })
     }
 
@@ -50,7 +52,11 @@ impl FileReader {
         let mut record = Vec::new();
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
-                Ok(0) => return None, // TODO: check incomplete record
+                Ok(0) => {
+                    // TODO: check incomplete record
+                    self.footer = record;
+                    return None;
+                }
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
@@ -299,7 +305,12 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
-        let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
+        // skip to the part after the last event
+        while let Some(res) = self.reader.read_raw() {
+            self.into_io_error(res)?;
+        }
+        let footer = std::mem::take(&mut self.reader.footer);
+        let res = self.sink.write_all(&footer);
         self.into_io_error(res.map_err(WriteError::IO))?;
         let res = self.sink.finish();
         self.into_io_error(res.map_err(WriteError::IO))
-- 
2.43.0


From c669ab4082338fced1d060e092a2a0df163ddf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 10/47] fix: report an incomplete header or last event in LHEF
 files

---
 src/lhef.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 9c9d69a..5401934 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -53,8 +53,16 @@ impl FileReader {
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
                 Ok(0) => {
-                    // TODO: check incomplete record
-                    self.footer = record;
+                    if record.windows(6).any(|w| w == b"<event") {
+                        let record = String::from_utf8_lossy(&record);
+                        return Some(Err(ReadError::FindEntry(
+                            "</event>",
+                            take_chars(&record, 100),
+                        )));
+                    }
+                    if !record.is_empty() {
+                        self.footer = record;
+                    }
                     return None;
                 }
                 Ok(_) => {}
@@ -210,7 +218,10 @@ fn init_source(
     let mut header = Vec::new();
     while !header.ends_with(b"\n</init>") {
         if buf.read_until(b'>', &mut header).map_err(Read)? == 0 {
-            break;
+            return Err(Read(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "Failed to find </init>",
+            )));
         }
     }
     Ok((header, buf))
-- 
2.43.0


From 9875054481e9424ebd4612afbacfc420a00f81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 11/47] fix: replace named weights in place

---
 src/hepmc2.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index f0c256c..5c716b9 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -356,21 +356,24 @@ fn update_named_weights(
         }
     }
 
-    let mut weight_entries = Vec::from_iter(
-        record[weights_start..]
-            .split_ascii_whitespace()
-            .take(nweights)
-            .map(|w| w.to_string()),
-    );
-    for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
-        weight_entries[*idx] = weight.to_string();
+    let mut weight_entries = Vec::with_capacity(nweights.min(names.len()));
+    let mut rest = &record[weights_start..];
+    for _ in 0..nweights {
+        let entry;
+        (rest, entry) = any_entry(rest)
+            .map_err(|_| ParseEntry("weight entry", take_chars(rest, 100)))?;
+        let end = record.len() - rest.len();
+        weight_entries.push((end - entry.len())..end);
+    }
+    let new_weights =
+        Vec::from_iter(weight_pos.into_iter().zip(weights.iter().skip(1)));
+    // start from the back so that the positions remain valid
+    for (idx, weight) in new_weights.into_iter().rev() {
+        let Some(entry) = weight_entries.get(idx) else {
+            return Err(FindEntry("weight entry", take_chars(record, 100)));
+        };
+        record.replace_range(entry.clone(), &weight.to_string());
     }
-
-    let start = weights_start + 1;
-    let line_end = record[start..].find('\n').unwrap();
-    let end = start + line_end;
-    // there are no entries in the E line after the weights, so this is safe
-    record.replace_range(start..end, &weight_entries.join(" "));
     Ok(())
 }
 
-- 
2.43.0


From 35a5fc179e671125a922494b49e1f08b11ad645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 12/47] fix: read LHEF events with any number of particles

---
 src/lhef.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 5401934..8667ec9 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -255,7 +255,7 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event = EventBuilder::new();
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
-- 
2.43.0


From 6e18b9ccb36340c6ef58d41e749992187664909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 13/47] fix: do not skip the first character of STRIPPER XML
 momenta

---
 src/stripper_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 731f863..2c4971c 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -597,7 +597,7 @@ impl StripperXmlParser for Converter {
             let (r, _) = tag("\">").parse(r).map_err(|_err: NomErr<'_>| {
                 Error::IncompleteTag("<p>", take_chars(r, 100))
             })?;
-            let (r, p) = particle_momentum(&r[1..])
+            let (r, p) = particle_momentum(r)
                 .map_err(|_| parse_err("particle momentum entry", r))?;
             event.add_outgoing(pid, p);
             (rest, _) = tag("</p>").parse(r).map_err(|_err: NomErr<'_>| {
-- 
2.43.0


From c533c82237656a85ca6e31919cf0cd3cb63adc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 14/47] fix: report missing normalisations of STRIPPER XML
 files

---
 src/stripper_xml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 2c4971c..6e5f3eb 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -297,7 +297,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
@@ -310,11 +310,11 @@ where
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
+                        entry.0 = Some(scale);
                         // don't add to vec of event files
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
+                        let entry = rescale.entry(name).or_default();
                         entry.1 += nevents;
                         event_files.push((path.to_owned(), out))
                     }
@@ -329,7 +329,9 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            Some((name, scale? / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From 40e7796bcc929e208672bcbcdf615d0c2d46897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 15/47] fix: keep count of the remaining STRIPPER XML events
 across rewinds

---
 src/stripper_xml.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 6e5f3eb..46b99c4 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -38,6 +38,7 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
 }
@@ -53,11 +54,12 @@ impl FileReader {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
         };
 
-        let rem_subevents = nsubevents as usize;
+        let nsubevents = nsubevents as usize;
         Ok(Self {
             source_path,
             source,
-            rem_subevents,
+            nsubevents,
+            rem_subevents: nsubevents,
             header,
         })
     }
@@ -92,7 +94,7 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
@@ -112,6 +114,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = self.nsubevents;
 
         Ok(())
     }
-- 
2.43.0


From c0569b60c40bfadc383d83bb617bf128ce9e4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 16/47] fix: report invalid UTF-8 in HepMC2 and LHEF events

---
 src/hepmc2.rs | 14 +++++++++++---
 src/lhef.rs   |  7 +++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 5c716b9..9e8195a 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -15,7 +15,7 @@ use crate::{
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
@@ -46,7 +46,12 @@ impl FileReader {
             match self.source.read_until(b'E', &mut record) {
                 Ok(0) => {
                     if record.len() > 1 {
-                        let record = String::from_utf8(record).unwrap();
+                        let record = match String::from_utf8(record) {
+                            Ok(record) => record,
+                            Err(err) => {
+                                return Some(Err(Utf8Error::from(err).into()))
+                            }
+                        };
                         assert!(record.starts_with('E'));
                         trace!("Read HepMC record:\n{record}");
                         return Some(Ok(record));
@@ -59,7 +64,10 @@ impl FileReader {
             }
         }
         record.pop();
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         assert!(record.starts_with('E'));
         trace!("Read HepMC record:\n{record}");
         Some(Ok(record))
diff --git a/src/lhef.rs b/src/lhef.rs
index 8667ec9..433715a 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -21,7 +21,7 @@ use crate::{
     hepmc2::update_central_weight,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
@@ -69,7 +69,10 @@ impl FileReader {
                 Err(err) => return Some(Err(err.into())),
             }
         }
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
-- 
2.43.0


From 60c7a06c5ab6380f568ff2fe91c707feb7b67c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 17/47] fix: report HepMC2 events without weights

---
 src/hepmc2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 9e8195a..b1a30d1 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -477,7 +477,13 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        (weights[0], weights, rest)
+        let Some(&weight) = weights.first() else {
+            return Err(FindEntry(
+                "central event weight",
+                take_chars(record, 100),
+            ));
+        };
+        (weight, weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
-- 
2.43.0


From 6889990bd74e69dc1393896592f9a01a6a2f8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 18/47] fix: report missing weight names, allow repeated ones

---
 src/hepmc2.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index b1a30d1..3008fe4 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "multiweight")]
+use std::collections::HashSet;
 use std::{
     fs::File,
     io::{BufRead, BufReader, BufWriter, Write},
@@ -294,6 +296,8 @@ impl HepMCParser for Converter {
 
         #[allow(non_snake_case)]
         let mut energy_unit = EnergyUnit::GeV;
+        #[cfg(feature = "multiweight")]
+        let mut missing_weight = self.weight_names().first();
         while let Some(pos) = record.find('\n') {
             record = &record[(pos + 1)..];
             match record.as_bytes().first() {
@@ -304,7 +308,8 @@ impl HepMCParser for Converter {
                 Some(b'N') => {
                     record = parse_weight_names_line(
                         self, record, &_weights, &mut event,
-                    )?
+                    )?;
+                    missing_weight = None;
                 }
                 Some(b'P') => record = parse_particle_line(record, &mut event)?,
                 Some(b'U') => (energy_unit, record) = parse_units_line(record)?,
@@ -319,6 +324,11 @@ impl HepMCParser for Converter {
             }
         }
 
+        #[cfg(feature = "multiweight")]
+        if let Some(missing) = missing_weight {
+            return Err(FindWeight(missing.to_owned(), String::new()));
+        }
+
         if energy_unit != EnergyUnit::GeV {
             assert_eq!(energy_unit, EnergyUnit::MeV);
             event.rescale_energies(n64(1e-3));
@@ -336,7 +346,6 @@ fn update_named_weights(
     weights: &Weights,
 ) -> Result<(), ReadError> {
     use ReadError::*;
-    assert_eq!(weights.len(), weight_names.len() + 1);
 
     if weight_names.is_empty() {
         return Ok(());
@@ -352,6 +361,8 @@ fn update_named_weights(
     let (names, nnames) = u32_entry(names).map_err(|_| {
         ParseEntry("number of weight names entry", take_chars(names, 100))
     })?;
+    let mut unseen: HashSet<_> =
+        weight_names.iter().map(|n| n.as_str()).collect();
     let mut weight_pos = Vec::with_capacity(weight_names.len());
     let mut rest = names;
     for nentry in 0..(nnames as usize) {
@@ -359,10 +370,14 @@ fn update_named_weights(
         (rest, name) = string_entry(rest).map_err(|_| {
             ParseEntry("weight name entry", take_chars(rest, 100))
         })?;
-        if weight_names.iter().any(|n| n == name) {
+        if unseen.remove(name) {
             weight_pos.push(nentry);
         }
     }
+    if let Some(missing) = unseen.into_iter().next() {
+        return Err(FindWeight(missing.to_owned(), names.to_owned()));
+    }
+    assert_eq!(weights.len(), weight_pos.len() + 1);
 
     let mut weight_entries = Vec::with_capacity(nweights.min(names.len()));
     let mut rest = &record[weights_start..];
@@ -518,7 +533,7 @@ fn parse_weight_names_line<'a>(
         let name;
         (record, name) = string_entry(record)
             .map_err(|_| parse_err("weight name entry", record))?;
-        if let Some(seen) = weight_seen.get_mut(name) {
+        if let Some(seen @ false) = weight_seen.get_mut(name) {
             *seen = true;
             event.add_weight(n64(*weight));
         }
-- 
2.43.0


From e59c35776ae46f889ea4a9c84dd170886ba14bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 19/47] fix: report weights and momenta that are not a number

---
 src/parsing.rs      | 3 ++-
 src/stripper_xml.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index 56b202d..c9a6138 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,13 +1,14 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
+    combinator::verify,
     number::complete::double,
     sequence::preceded,
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, double).parse(line)
+    preceded(space1, verify(double, |f: &f64| !f.is_nan())).parse(line)
 }
 
 pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 46b99c4..f1cba00 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -13,7 +13,7 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{char, i32, multispace0, space0, space1, u64},
-    combinator::all_consuming,
+    combinator::{all_consuming, verify},
     sequence::preceded,
     IResult, Parser,
 };
@@ -685,5 +685,5 @@ impl UpdateWeights for FileIO {
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-    nom::number::complete::double(input)
+    verify(nom::number::complete::double, |f: &f64| !f.is_nan()).parse(input)
 }
-- 
2.43.0


From ed2da396bfd6b127f9755671232e6747e4617b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 20/47] fix: keep stored weights of channels without cross
 section

---
 src/stripper_xml.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index f1cba00..b596fbb 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -236,14 +236,18 @@ impl FileIO {
         let mut record = record?;
 
         if !weights.is_empty() {
-            let weight = weights.central() / self.weight_scale;
-
             // TODO: code duplication with `rescale_weight`
             let (rest, start) = weight_start(record.as_str())
                 .map_err(|_| parse_err("start of event record", &record))?;
             let (rest, old_weight) =
                 double(rest).map_err(|_| parse_err("weight entry", rest))?;
 
+            let weight = if self.weight_scale == 0. {
+                // all weights vanish, whatever we write
+                n64(old_weight)
+            } else {
+                weights.central() / self.weight_scale
+            };
             let start = start.len();
             let end = record.len() - rest.len();
             record.replace_range(start..end, &weight.to_string());
-- 
2.43.0


From 6ea6f10ed34e39f6616b584a037c3f3af406b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 21/47] fix: do not panic on LHEF events without line breaks

---
 src/lhef.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 433715a..b7e5b98 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -8,7 +8,8 @@ use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
-    character::complete::{i32, space0, u32},
+    bytes::complete::take_until,
+    character::complete::{i32, newline, space0, u32},
     multi::count,
     sequence::preceded,
     IResult, Parser,
@@ -333,8 +334,7 @@ impl UpdateWeights for FileIO {
 
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
-    let line_end = record.find('\n').unwrap(); // TODO: error treatment
-    let rest = &record[(line_end + 1)..];
+    let (rest, _) = (take_until("\n"), newline).parse(record)?;
     let (rest, _nup) = preceded(space0, non_space).parse(rest)?;
     let (rest, _idrup) = any_entry(rest)?;
     let (parsed, rest) = record.split_at(record.len() - rest.len());
-- 
2.43.0


From 656c829b8424d15714342d6a878cd8368005c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 22/47] fix: leave the photon out of its isolation cone instead
 of subtracting it

---
 src/cluster.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cluster.rs b/src/cluster.rs
index c6c167d..1d629a1 100644
--- a/src/cluster.rs
+++ b/src/cluster.rs
@@ -75,12 +75,22 @@ impl DefaultClustering {
             return false;
         }
         // Check photon is sufficiently isolated
+        let photon_mom = p;
         let p = PseudoJet::from(p);
+        let mut is_original_photon_found = false;
         let mut cone_mom = PseudoJet::new();
         for (e_id, particles) in event {
             // ignore neutrinos/muons in isolation cone
             if !e_id.abs().is_neutrino() && !is_muon(e_id.abs()) {
                 for &ep in particles.iter() {
+                    // ignore the original photon itself
+                    if !is_original_photon_found
+                        && is_photon(*e_id)
+                        && ep == *photon_mom
+                    {
+                        is_original_photon_found = true;
+                        continue;
+                    }
                     let ep = PseudoJet::from(ep);
                     if ep.delta_r(&p) < photon_def.radius {
                         cone_mom += ep;
@@ -88,8 +98,6 @@ impl DefaultClustering {
                 }
             }
         }
-        // remove momentum of the original photon particle from cone
-        cone_mom -= p;
         // check photon is sufficiently hard compared to surrounding cone
         let e_fraction = n64(photon_def.min_e_fraction);
         let cone_et = (cone_mom.e() * cone_mom.e()
-- 
2.43.0


From 21c0cd82a2769b5fcfc33889fec2596d49228963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 23/47] fix: count events with updated weights as read in size
 hints

---
 src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 6a6bfb4..a09841d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -610,6 +610,7 @@ impl UpdateWeights for CombinedFileIO {
                 }
                 progress.inc(1);
                 nevent += 1;
+                self.nevents_read += 1;
             }
             current.finish_weight_update()?;
         }
@@ -632,6 +633,7 @@ impl UpdateWeights for CombinedFileIO {
             };
             let res = current.update_next_weights(weights)?;
             if res {
+                self.nevents_read += 1;
                 return Ok(true);
             }
             current.finish_weight_update()?;
-- 
2.43.0


From dc7e04ecb670ca7f5c75336abefdb26088fa4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 24/47] fix: read all streams of gzip and bzip2 files

---
 src/compression.rs  | 24 +++++++++++++++++++++---
 src/hepmc2.rs       |  3 +--
 src/io.rs           |  3 +--
 src/lhef.rs         |  3 +--
 src/stripper_xml.rs |  3 +--
 5 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 7ecc43e..4b69f76 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,7 +1,7 @@
-use std::io::Write;
+use std::io::{BufRead, BufReader, Write};
 
-use bzip2::write::BzEncoder;
-use flate2::write::GzEncoder;
+use bzip2::{read::MultiBzDecoder, write::BzEncoder};
+use flate2::{read::MultiGzDecoder, write::GzEncoder};
 
 /// Compression format
 #[derive(Debug, Copy, Clone)]
@@ -16,6 +16,24 @@ pub enum Compression {
     Zstd(u8),
 }
 
+/// Automatic decompression
+///
+/// Files compressed in the bzip2 and gzip formats can consist of several
+/// compressed streams. `audec` would only decompress the first one.
+pub(crate) fn auto_decompress<'a, B: 'a + BufRead>(
+    mut r: B,
+) -> Box<dyn BufRead + 'a> {
+    match r.fill_buf() {
+        Ok([b'B', b'Z', b'h', ..]) => {
+            Box::new(BufReader::new(MultiBzDecoder::new(r)))
+        }
+        Ok([0x1f, 0x8b, ..]) => {
+            Box::new(BufReader::new(MultiGzDecoder::new(r)))
+        }
+        _ => audec::auto_decompress(r),
+    }
+}
+
 /// A writer that has to be finished after everything is written
 pub trait FinishWrite: Write {
     /// Write everything that is still pending
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 3008fe4..e81874a 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -6,14 +6,13 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
diff --git a/src/io.rs b/src/io.rs
index a09841d..923d1aa 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,13 +6,12 @@ use std::{
     string::FromUtf8Error,
 };
 
-use audec::auto_decompress;
 use log::debug;
 use serde::{Deserialize, Serialize};
 use thiserror::Error;
 
 use crate::{
-    compression::Compression,
+    compression::{auto_decompress, Compression},
     event::{Event, Weights},
     formats::FileFormat,
     hepmc2::HepMCParser,
diff --git a/src/lhef.rs b/src/lhef.rs
index b7e5b98..530565d 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -4,7 +4,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
@@ -17,7 +16,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index b596fbb..8c662c6 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -7,7 +7,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
@@ -23,7 +22,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression, FinishWrite},
+    compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
-- 
2.43.0


From 3ac8e7078a387bac89eb7da7c0688ecb18bf3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 25/47] fix: look at enough bytes to recognise event formats

---
 src/io.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 923d1aa..4e8f928 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     fs::File,
-    io::{BufRead, BufReader},
+    io::{BufReader, Read},
     path::{Path, PathBuf},
     string::FromUtf8Error,
 };
@@ -28,6 +28,7 @@ use crate::ntuple::NTupleConverter;
 use crate::stripper_xml::StripperXmlParser;
 
 const ROOT_MAGIC_BYTES: [u8; 4] = [b'r', b'o', b'o', b't'];
+const MAX_DETECT_BYTES: u64 = 8192;
 
 /// Event reader from a single file
 ///
@@ -257,10 +258,13 @@ pub fn detect_event_file_format(
     use FileFormat::*;
 
     let file = File::open(infile).map_err(OpenInput)?;
-    let mut r = auto_decompress(BufReader::new(file));
-    let Ok(bytes) = r.fill_buf() else {
-        return Ok(HepMC2);
-    };
+    // a single read may return fewer bytes than needed
+    let mut bytes = Vec::new();
+    let r = auto_decompress(BufReader::new(file));
+    if let Err(err) = r.take(MAX_DETECT_BYTES).read_to_end(&mut bytes) {
+        debug!("Failed to read {infile:?} to the end: {err}");
+    }
+    let bytes = bytes.as_slice();
     if bytes.starts_with(&ROOT_MAGIC_BYTES) {
         #[cfg(not(feature = "ntuple"))]
         return Err(RootUnsupported);
-- 
2.43.0


From f3e865e7ccb7a5b722ca02afd36aff2aaed09d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 26/47] fix: recognise STRIPPER XML files in the same way
 everywhere

---
 src/stripper_xml.rs | 48 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 8c662c6..9e8bbfe 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -24,13 +24,15 @@ use thiserror::Error;
 use crate::{
     compression::{auto_decompress, compress_writer, Compression, FinishWrite},
     event::{Event, EventBuilder, Weights},
+    formats::FileFormat,
     four_vector::FourVector,
     io::{
-        Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, Utf8Error, WriteError,
+        detect_event_file_format, Converter, CreateError, ErrorKind,
+        EventFileReader, EventRecord, FileIOError, ReadError, Utf8Error,
+        WriteError,
     },
     traits::{Rewind, UpdateWeights},
-    util::{take_chars, trim_ascii_start},
+    util::take_chars,
 };
 
 /// Reader from a (potentially compressed) Les Houches Event File
@@ -306,31 +308,25 @@ where
     let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
+        if detect_event_file_format(path)? != FileFormat::StripperXml {
+            event_files.push((path.to_owned(), out));
+            continue;
+        }
+        debug!("extracting scaling information from {path:?}");
         let file = File::open(path).map_err(OpenInput)?;
-        let mut r = auto_decompress(BufReader::new(file));
-        if let Ok(buf) = r.fill_buf() {
-            let buf = trim_ascii_start(buf);
-            if buf.starts_with(b"<?xml") {
-                debug!("extracting scaling information from {path:?}");
-                let tag = extract_xml_info(r)?;
-                match tag {
-                    XMLTag::Normalization { name, scale } => {
-                        let entry = rescale.entry(name).or_default();
-                        entry.0 = Some(scale);
-                        // don't add to vec of event files
-                    }
-                    XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_default();
-                        entry.1 += nevents;
-                        event_files.push((path.to_owned(), out))
-                    }
-                }
-            } else {
-                // not a STRIPPER XML file
-                event_files.push((path.to_owned(), out));
+        let r = auto_decompress(BufReader::new(file));
+        let tag = extract_xml_info(r)?;
+        match tag {
+            XMLTag::Normalization { name, scale } => {
+                let entry = rescale.entry(name).or_default();
+                entry.0 = Some(scale);
+                // don't add to vec of event files
+            }
+            XMLTag::Eventrecord { name, nevents, .. } => {
+                let entry = rescale.entry(name).or_default();
+                entry.1 += nevents;
+                event_files.push((path.to_owned(), out))
             }
-        } else {
-            event_files.push((path.to_owned(), out))
         }
     }
     let rescale = rescale
-- 
2.43.0


From 597b81653b672fbe628a87e7310e3aa99f7c7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 27/47] fix: recognise LHEF files with leading whitespace

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 4e8f928..91981d9 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -278,7 +278,7 @@ pub fn detect_event_file_format(
         return Ok(StripperXml);
     }
     #[cfg(feature = "lhef")]
-    if bytes.starts_with(b"<LesHouchesEvents") {
+    if trim_ascii_start(bytes).starts_with(b"<LesHouchesEvents") {
         return Ok(Lhef);
     }
     Ok(HepMC2)
-- 
2.43.0


From 6dddc4928fbc01ea445925388ed67111252c21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 28/47] fix: refuse to partition samples with too few events

With fewer than 3 N / 2 - 1 events there are not enough bisections for
N regions, and cres-partition panicked.
---
 src/bin/partition.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 044c245..2b73d0c 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,14 +78,14 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    let nevents = events.len();
+    let min_nevents = min_nevents(opt.regions);
+    if nevents < min_nevents {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
-            events.len(),
+            "Need at least {min_nevents} negative-weight events for {} regions, got {nevents}",
             opt.regions,
         )
     }
-    let nevents = events.len();
 
     info!(
         "Constructing {} regions from {nevents} negative-weight events",
@@ -126,6 +126,17 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Minimum number of events required for the given number of regions
+///
+/// Each bisection requires a vantage point. The last ones, `nregions / 2`
+/// of them, require a second event defining the radius.
+const fn min_nevents(nregions: u32) -> usize {
+    match nregions {
+        0 | 1 => 1,
+        _ => 3 * (nregions as usize / 2) - 1,
+    }
+}
+
 /// Logarithm in base 2, rounded down
 pub const fn log2(n: u32) -> u32 {
     u32::BITS - n.leading_zeros() - 1
-- 
2.43.0


From edb52f7d0dbf790cf71b71ade269c37ea4922fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 29/47] fix: read compressed partitions

cres-partition can compress its output, but cres-classify-events could
not read it.
---
 src/bin/classify-events.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 9d2544f..462495d 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -3,7 +3,7 @@ mod opt_common;
 
 use std::{
     fs::{create_dir_all, File},
-    io::{BufWriter, Write},
+    io::{BufReader, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
@@ -49,6 +49,7 @@ fn main() -> Result<()> {
     let part_file = opt.partition;
     let part_info = File::open(&part_file)
         .with_context(|| format!("Failed to open {part_file:?}"))?;
+    let part_info = audec::auto_decompress(BufReader::new(part_info));
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
     let (clustering, partitions): PartInfo = serde_yaml::from_reader(part_info)
-- 
2.43.0


From 5150b85e0a610f3f1215d8d018816a920ec6c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 30/47] fix: do not repeat the footer when classifying files
 without events

---
 src/bin/classify-events.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 462495d..40c4a45 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -125,8 +125,9 @@ impl Classifier {
                 .with_context(|| {
                     format!("Failed to create writers for {file:?}")
                 })?;
+        let header = trim_footer(reader.header(), format);
         for writer in &mut writers {
-            writer.write_all(reader.header())?;
+            writer.write_all(header)?;
         }
         let expected_nevents = reader.size_hint().0;
         let event_progress = if expected_nevents > 0 {
@@ -141,8 +142,8 @@ impl Classifier {
             let region = partitions.region(&cres_event);
             trace!("{event:#?} is in region {region}");
             let event = String::try_from(event).unwrap();
-            let event = &trim_footer(&event, format);
-            writers[region].write_all(event.as_bytes())?;
+            let event = trim_footer(event.as_bytes(), format);
+            writers[region].write_all(event)?;
             event_progress.inc(1);
         }
         for mut writer in writers {
@@ -216,12 +217,12 @@ fn write_footer(
     writer.write_all(b"\n")
 }
 
-fn trim_footer(event: &str, format: FileFormat) -> &str {
-    let footer = get_footer(format);
-    if let Some(event) = event.trim_end().strip_suffix(footer) {
-        event
+fn trim_footer(text: &[u8], format: FileFormat) -> &[u8] {
+    let footer = get_footer(format).as_bytes();
+    if let Some(text) = text.trim_ascii_end().strip_suffix(footer) {
+        text
     } else {
-        event
+        text
     }
 }
 
-- 
2.43.0


From a995757addbbe8ff9c1811c62e68d12aac1c93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 31/47] fix: end the last line of classified HepMC2 events

Otherwise, the footer would become part of the last event.
---
 src/bin/classify-events.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 40c4a45..623cef1 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -144,6 +144,9 @@ impl Classifier {
             let event = String::try_from(event).unwrap();
             let event = trim_footer(event.as_bytes(), format);
             writers[region].write_all(event)?;
+            if format == FileFormat::HepMC2 && !event.ends_with(b"\n") {
+                writers[region].write_all(b"\n")?;
+            }
             event_progress.inc(1);
         }
         for mut writer in writers {
-- 
2.43.0


From 8372fad9e8a96fe8501e67ee709f38b8904c4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 32/47] fix: keep STRIPPER XML event groups complete when
 classifying

Start and end tags of event groups were copied as part of the header
and the event records, so they did not match in the output files.
---
 src/bin/classify-events.rs | 102 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 101 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 623cef1..29b9722 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -85,7 +85,7 @@ fn main() -> Result<()> {
             }
             #[cfg(feature = "stripper-xml")]
             FileFormat::StripperXml => {
-                classifier.classify_byte_records(file, format)?
+                classifier.classify_xml_records(file, format)?
             }
             #[cfg(feature = "ntuple")]
             FileFormat::BlackHatNtuple => {
@@ -157,6 +157,78 @@ impl Classifier {
         Ok(())
     }
 
+    // TODO: code duplication with `classify_byte_records`
+    #[cfg(feature = "stripper-xml")]
+    fn classify_xml_records(
+        &self,
+        file: PathBuf,
+        format: FileFormat,
+    ) -> Result<()> {
+        let Classifier {
+            partitions,
+            outdir,
+            compression,
+            converter,
+            clustering,
+        } = self;
+        let reader = FileReader::try_new(file.clone())
+            .with_context(|| "Failed to read from {file:?}")?;
+        let mut writers =
+            make_byte_writers(partitions.len(), outdir, &file, *compression)
+                .with_context(|| {
+                    format!("Failed to create writers for {file:?}")
+                })?;
+        // the header extends to the first event, so it includes the
+        // start of the first group of events
+        let header = trim_footer(reader.header(), format);
+        let (header, group_start) = split_group_start(header);
+        let mut group_start = group_start.to_vec();
+        for writer in &mut writers {
+            writer.write_all(header)?;
+        }
+        // which writers have an open group of events
+        let mut in_group = vec![false; writers.len()];
+        let expected_nevents = reader.size_hint().0;
+        let event_progress =
+            ProgressBar::new(expected_nevents as u64, "events read");
+        for event in reader {
+            let event = event?;
+            let cres_event = converter.try_convert(event.clone())?;
+            let cres_event = clustering.cluster(cres_event)?;
+            let region = partitions.region(&cres_event);
+            trace!("{event:#?} is in region {region}");
+            let event = String::try_from(event).unwrap();
+            let event = trim_footer(event.as_bytes(), format);
+            if !in_group[region] {
+                writers[region].write_all(&group_start)?;
+                in_group[region] = true;
+            }
+            // Similarly, the record of the last event in a group
+            // includes the end of the group and the start of the next
+            if let Some((event, rest)) = split_group_end(event) {
+                writers[region].write_all(event)?;
+                for (writer, in_group) in writers.iter_mut().zip(&mut in_group)
+                {
+                    if std::mem::take(in_group) {
+                        writer.write_all(b"</e>\n")?;
+                    }
+                }
+                let (rest, start) = split_group_start(rest);
+                writers[region].write_all(rest.trim_ascii_start())?;
+                group_start = start.to_vec();
+            } else {
+                writers[region].write_all(event)?;
+            }
+            event_progress.inc(1);
+        }
+        for mut writer in writers {
+            write_footer(&mut writer, format)
+                .with_context(|| "Failed to write event file footer")?;
+            writer.finish().with_context(|| "Failed to write event file")?;
+        }
+        Ok(())
+    }
+
     #[cfg(feature = "ntuple")]
     fn classify_ntuple_records(&self, file: PathBuf) -> Result<()> {
         use cres::{io::EventRecord, ntuple::FileReader};
@@ -229,6 +301,34 @@ fn trim_footer(text: &[u8], format: FileFormat) -> &[u8] {
     }
 }
 
+/// Split off the start tag of a group of STRIPPER XML events at the end
+#[cfg(feature = "stripper-xml")]
+fn split_group_start(text: &[u8]) -> (&[u8], &[u8]) {
+    let tag_start = text.iter().rposition(|c| *c == b'<');
+    match tag_start.map(|pos| text.split_at(pos)) {
+        Some((text, tag))
+            if tag.starts_with(b"<e")
+                && matches!(
+                    tag.get(2),
+                    Some(b'>' | b' ' | b'\t' | b'\n' | b'\r')
+                ) =>
+        {
+            (text, tag)
+        }
+        _ => (text, b""),
+    }
+}
+
+/// Split a STRIPPER XML event record at the tag ending the group of events
+#[cfg(feature = "stripper-xml")]
+fn split_group_end(event: &[u8]) -> Option<(&[u8], &[u8])> {
+    const GROUP_END: &[u8] = b"</e>";
+    let pos = event
+        .windows(GROUP_END.len())
+        .rposition(|w| w == GROUP_END)?;
+    Some((&event[..pos], &event[(pos + GROUP_END.len())..]))
+}
+
 fn get_footer(format: FileFormat) -> &'static str {
     match format {
         FileFormat::HepMC2 => "HepMC::IO_GenEvent-END_EVENT_LISTING",
-- 
2.43.0


From 5ed9dbd3e61dd8fb2cb1093500f6e0a7564e1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 33/47] fix: never overwrite input files or the output for
 other inputs

Output files that coincide with an input file destroyed it, and inputs
with the same name in different directories were written to the same
output file. Inputs without a file name are reported instead of
panicking.
---
 src/bin/classify-events.rs | 45 ++++++++++--------
 src/bin/main.rs            | 18 ++++----
 src/bin/partition.rs       |  4 +-
 src/io.rs                  | 93 ++++++++++++++++++++++++++++++++++++--
 4 files changed, 129 insertions(+), 31 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 29b9722..589faae 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -14,7 +14,9 @@ use cres::{
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
-    io::{detect_event_file_format, EventFileReader, FileReader},
+    io::{
+        detect_event_file_format, ensure_separate, EventFileReader, FileReader,
+    },
     partition::VPTreePartition,
     prelude::{Converter, DefaultClustering},
     progress_bar::ProgressBar,
@@ -69,6 +71,14 @@ fn main() -> Result<()> {
         clustering,
     };
 
+    let mut outfiles = Vec::new();
+    for file in &opt.infiles {
+        let n = classifier.partitions.len();
+        outfiles.extend(outfile_names(n, &classifier.outdir, file)?);
+    }
+    ensure_separate(&opt.infiles, &outfiles)?;
+    ensure_separate([&part_file], &outfiles)?;
+
     //TODO: code duplication with Cres
     for file in opt.infiles {
         info!("Reading {file:?}");
@@ -347,24 +357,9 @@ fn make_byte_writers(
     file: &Path,
     compression: Option<Compression>,
 ) -> Result<Vec<Box<dyn FinishWrite>>> {
-    let filename = file
-        .file_name()
-        .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
-    let file = filename
-        .to_str()
-        .ok_or_else(|| anyhow!("Failed to convert {filename:?} to a string"))?;
-    let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
-
-    let make_outname = |i| {
-        PathBuf::from_iter([
-            outdir,
-            PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
-        ])
-    };
-
     let mut res = Vec::with_capacity(n);
-    for i in 0..n {
-        let outname = make_outname(i);
+    for (i, outname) in outfile_names(n, outdir, file)?.into_iter().enumerate()
+    {
         debug!("Events in region {i} will be written to {outname:?}");
         let outfile = File::create(&outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
@@ -375,3 +370,17 @@ fn make_byte_writers(
     }
     Ok(res)
 }
+
+fn outfile_names(n: usize, outdir: &Path, file: &Path) -> Result<Vec<PathBuf>> {
+    let filename = file
+        .file_name()
+        .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
+    let file = filename
+        .to_str()
+        .ok_or_else(|| anyhow!("Failed to convert {filename:?} to a string"))?;
+    let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
+
+    let names =
+        (0..n).map(|i| outdir.join(format!("{prefix}.{i}.{suffix}")));
+    Ok(names.collect())
+}
diff --git a/src/bin/main.rs b/src/bin/main.rs
index 0c7f46a..06d973f 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -4,12 +4,11 @@ mod opt_cres_validate;
 
 use std::error::Error;
 use std::fs::create_dir_all;
-use std::path::PathBuf;
 
 use crate::opt_cres::{Opt, Search};
 use crate::opt_cres_validate::validate;
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::cluster::DefaultClustering;
 use cres::io::{Converter, IOBuilder};
@@ -72,13 +71,14 @@ where
     event_io.compression(opt.compression);
 
     create_dir_all(&opt.outdir)?;
-    let files = opt.infiles.into_iter().map(|f| {
-        let out = PathBuf::from_iter([
-            opt.outdir.as_os_str(),
-            f.file_name().unwrap(),
-        ]);
-        (f, out)
-    });
+    let mut files = Vec::new();
+    for f in opt.infiles {
+        let name = f
+            .file_name()
+            .ok_or_else(|| anyhow!("Failed to extract filename from {f:?}"))?;
+        let out = opt.outdir.join(name);
+        files.push((f, out))
+    }
     let event_io = event_io.build_from_files_iter(files)?;
 
     let cell_collector = None;
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 2b73d0c..1ca904d 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -12,7 +12,7 @@ use cres::{
     distance::{DistWrapper, EuclWithScaledPt},
     event::Event,
     io::Converter,
-    io::FileReader,
+    io::{ensure_separate, FileReader},
     partition::{VPBisection, VPTreePartition},
     prelude::DefaultClustering,
     traits::{Clustering, TryConvert},
@@ -51,6 +51,8 @@ fn main() -> Result<()> {
 
     debug!("settings: {:#?}", opt);
 
+    ensure_separate(&opt.infiles, [&opt.outfile])?;
+
     let converter = Converter::new();
 
     let mut clustering = DefaultClustering::new(opt.jet_def.into())
diff --git a/src/io.rs b/src/io.rs
index 91981d9..18d6e43 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::File,
     io::{BufReader, Read},
     path::{Path, PathBuf},
@@ -153,6 +153,15 @@ impl IOBuilder {
         self,
         infile: PathBuf,
         outfile: PathBuf,
+    ) -> Result<FileIO, CreateError> {
+        ensure_separate([&infile], [&outfile])?;
+        self.build_from_separate_files(infile, outfile)
+    }
+
+    fn build_from_separate_files(
+        self,
+        infile: PathBuf,
+        outfile: PathBuf,
     ) -> Result<FileIO, CreateError> {
         let IOBuilder {
             scaling,
@@ -216,9 +225,17 @@ impl IOBuilder {
         P: AsRef<Path>,
         Q: AsRef<Path>,
     {
+        let files = Vec::from_iter(files);
+        let infiles = Vec::from_iter(
+            files
+                .iter()
+                .map(|(infile, _)| infile.as_ref().to_path_buf()),
+        );
+
         #[cfg(feature = "stripper-xml")]
         {
             let (files, scaling) = crate::stripper_xml::extract_scaling(files)?;
+            ensure_separate(infiles, files.iter().map(|(_, out)| out))?;
 
             let mut builder = self;
             builder.scaling = scaling;
@@ -226,7 +243,10 @@ impl IOBuilder {
         }
 
         #[cfg(not(feature = "stripper-xml"))]
-        Ok(self.build_from_files_iter_known_scaling(files)?)
+        {
+            ensure_separate(infiles, files.iter().map(|(_, out)| out))?;
+            Ok(self.build_from_files_iter_known_scaling(files)?)
+        }
     }
 
     fn build_from_files_iter_known_scaling<I, P, Q>(
@@ -247,6 +267,66 @@ impl IOBuilder {
     }
 }
 
+/// Output file coincides with an input file or another output file
+#[derive(Debug, Error)]
+#[error("Output file {0} is also an input file or the output file for another input")]
+pub struct ConflictError(PathBuf);
+
+/// Ensure that writing to the output files does not change any other file
+///
+/// This is an error if any of the output files coincides with an input
+/// file or another output file.
+pub fn ensure_separate<I, O>(
+    infiles: I,
+    outfiles: O,
+) -> Result<(), ConflictError>
+where
+    I: IntoIterator,
+    I::Item: AsRef<Path>,
+    O: IntoIterator,
+    O::Item: AsRef<Path>,
+{
+    let mut seen: HashSet<_> =
+        HashSet::from_iter(infiles.into_iter().map(|f| file_id(f.as_ref())));
+    for outfile in outfiles {
+        let outfile = outfile.as_ref();
+        // e.g. devices can be used more than once
+        let is_special = outfile.metadata().is_ok_and(|m| !m.is_file());
+        if !is_special && !seen.insert(file_id(outfile)) {
+            return Err(ConflictError(outfile.to_owned()));
+        }
+    }
+    Ok(())
+}
+
+#[derive(Clone, Debug, Eq, PartialEq, Hash)]
+enum FileId {
+    #[cfg(unix)]
+    Inode(u64, u64),
+    Path(PathBuf),
+}
+
+fn file_id(path: &Path) -> FileId {
+    #[cfg(unix)]
+    if let Ok(metadata) = path.metadata() {
+        use std::os::unix::fs::MetadataExt;
+
+        return FileId::Inode(metadata.dev(), metadata.ino());
+    }
+    if let Ok(path) = path.canonicalize() {
+        return FileId::Path(path);
+    }
+    // the file does not exist, but the directory usually does
+    let dir = match path.parent() {
+        Some(dir) if dir != Path::new("") => dir,
+        _ => Path::new("."),
+    };
+    match (dir.canonicalize(), path.file_name()) {
+        (Ok(dir), Some(name)) => FileId::Path(dir.join(name)),
+        _ => FileId::Path(path.to_owned()),
+    }
+}
+
 /// Detect format of an event file
 ///
 /// Defaults to [HepMC2](FileFormat::HepMC2) if not other format can
@@ -313,6 +393,10 @@ pub enum CombinedBuildError {
     #[error("Failed to build file-based event I/O object")]
     FileIO(#[from] FileIOError),
 
+    /// Output file coincides with another file
+    #[error("Conflict between input and output files")]
+    Conflict(#[from] ConflictError),
+
     #[cfg(feature = "stripper-xml")]
     /// Error extracting weight scaling
     #[error("Failed to extract weight scaling")]
@@ -384,6 +468,9 @@ pub enum CreateError {
     /// UTF8 error
     #[error("UTF8 error")]
     Utf8(#[from] Utf8Error),
+    /// Output file coincides with another file
+    #[error("Conflict between input and output files")]
+    Conflict(#[from] ConflictError),
 
     #[cfg(not(feature = "ntuple"))]
     /// Attempt to use unsupported format
@@ -504,7 +591,7 @@ impl CombinedFileIO {
         self.current = Some(
             self.builder
                 .clone()
-                .build_from_files(infile, outfile)
+                .build_from_separate_files(infile, outfile)
                 .map_err(|source| {
                     let IOFiles { infile, outfile } = self.files[idx].clone();
                     FileIOError {
-- 
2.43.0


From 442af8594db9ab8c75ffcc2beac588ab510580a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 34/47] fix: refuse incomplete lepton and photon definitions in
 cres-partition

---
 src/bin/main.rs              |  3 ++-
 src/bin/opt_cres_validate.rs | 16 ++++++++--------
 src/bin/partition.rs         |  4 +++-
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/bin/main.rs b/src/bin/main.rs
index 06d973f..9008ae0 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -32,7 +32,8 @@ fn main() -> Result<()> {
         argfile::PREFIX,
     )
     .with_context(|| "Failed to read argument file")?;
-    let opt = validate(Opt::parse_from(args))?;
+    let opt = Opt::parse_from(args);
+    validate(&opt.lepton_def, &opt.photon_def)?;
     cres(opt)
 }
 
diff --git a/src/bin/opt_cres_validate.rs b/src/bin/opt_cres_validate.rs
index 58437c5..75c1b8a 100644
--- a/src/bin/opt_cres_validate.rs
+++ b/src/bin/opt_cres_validate.rs
@@ -1,9 +1,6 @@
 use thiserror::Error;
 
-use crate::{
-    opt_common::{LeptonDefinition, PhotonDefinition},
-    opt_cres::Opt,
-};
+use crate::opt_common::{LeptonDefinition, PhotonDefinition};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Error)]
 pub(crate) enum ValidationError {
@@ -13,17 +10,20 @@ pub(crate) enum ValidationError {
     BadPhotonOpt,
 }
 
-pub(crate) fn validate(opt: Opt) -> Result<Opt, ValidationError> {
+pub(crate) fn validate(
+    lepton_def: &LeptonDefinition,
+    photon_def: &PhotonDefinition,
+) -> Result<(), ValidationError> {
     let &LeptonDefinition {
         leptonalgorithm,
         leptonpt,
         leptonradius,
-    } = &opt.lepton_def;
+    } = lepton_def;
     let &PhotonDefinition {
         photonefrac,
         photonradius,
         photonpt,
-    } = &opt.photon_def;
+    } = photon_def;
     match (leptonalgorithm, leptonpt, leptonradius) {
         (Some(_), Some(_), Some(_)) => Ok(()),
         (None, None, None) => Ok(()),
@@ -34,5 +34,5 @@ pub(crate) fn validate(opt: Opt) -> Result<Opt, ValidationError> {
         (None, None, None) => Ok(()),
         _ => Err(ValidationError::BadPhotonOpt),
     }?;
-    Ok(opt)
+    Ok(())
 }
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 1ca904d..2d5fe3e 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -1,8 +1,10 @@
 mod opt_common;
+mod opt_cres_validate;
 mod opt_partition;
 
 use std::fs::File;
 
+use crate::opt_cres_validate::validate;
 use crate::opt_partition::Opt;
 
 use anyhow::{bail, Context, Result};
@@ -32,7 +34,7 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    validate(&opt.lepton_def, &opt.photon_def)?;
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
-- 
2.43.0


From e9a5181b0a3f67a3b2220ec06e72e5f35dad1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 35/47] fix: refuse option values that are not a number or
 negative

---
 src/bin/opt_common.rs    | 33 ++++++++++++++++++++++++++-------
 src/bin/opt_cres.rs      |  6 +++---
 src/bin/opt_partition.rs |  2 +-
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/bin/opt_common.rs b/src/bin/opt_common.rs
index fe0c5a0..7094092 100644
--- a/src/bin/opt_common.rs
+++ b/src/bin/opt_common.rs
@@ -80,6 +80,25 @@ pub(crate) fn parse_compr(s: &str) -> Result<Compression, ParseCompressionErr> {
     }
 }
 
+/// Parse a non-negative number
+pub(crate) fn parse_non_negative(s: &str) -> Result<f64, String> {
+    match s.parse() {
+        Ok(x) if x >= 0. => Ok(x),
+        Ok(_) => Err("has to be a non-negative number".to_string()),
+        Err(err) => Err(format!("{err}")),
+    }
+}
+
+/// Parse a non-negative finite number
+pub(crate) fn parse_finite(s: &str) -> Result<f64, String> {
+    let x = parse_non_negative(s)?;
+    if x.is_finite() {
+        Ok(x)
+    } else {
+        Err("has to be finite".to_string())
+    }
+}
+
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct JetDefinition {
     /// Jet algorithm.
@@ -90,9 +109,9 @@ pub(crate) struct JetDefinition {
     )]
     pub jetalgorithm: JetAlgorithm,
     /// Jet radius parameter.
-    #[clap(short = 'R', long)]
+    #[clap(short = 'R', long, value_parser = parse_finite)]
     pub jetradius: f64,
-    #[clap(short = 'p', long)]
+    #[clap(short = 'p', long, value_parser = parse_finite)]
     /// Minimum jet transverse momentum in GeV.
     pub jetpt: f64,
 }
@@ -116,9 +135,9 @@ pub(crate) struct LeptonDefinition {
     )]
     pub leptonalgorithm: Option<JetAlgorithm>,
     /// Lepton radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     pub leptonradius: Option<f64>,
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     /// Minimum lepton transverse momentum in GeV.
     pub leptonpt: Option<f64>,
 }
@@ -136,13 +155,13 @@ impl From<LeptonDefinition> for cres::cluster::JetDefinition {
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct PhotonDefinition {
     /// Minimum fraction of photon transverse energy in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     pub photonefrac: Option<f64>,
     /// Photon radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     pub photonradius: Option<f64>,
     /// Minimum photon transverse momentum in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_finite)]
     pub photonpt: Option<f64>,
 }
 
diff --git a/src/bin/opt_cres.rs b/src/bin/opt_cres.rs
index 2d08982..af623e5 100644
--- a/src/bin/opt_cres.rs
+++ b/src/bin/opt_cres.rs
@@ -40,7 +40,7 @@ pub(crate) enum Search {
 #[derive(Debug, Default, Copy, Clone, Parser)]
 pub(crate) struct UnweightOpt {
     /// Weight below which events are unweighted. '0' means no unweighting.
-    #[clap(short = 'w', long, default_value = "0.")]
+    #[clap(short = 'w', long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) minweight: f64,
 
     /// Random number generator seed for unweighting.
@@ -75,7 +75,7 @@ pub(crate) struct Opt {
     pub(crate) unweight: UnweightOpt,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 
     // TODO: make this option work again
@@ -132,7 +132,7 @@ variable."
     /// Limiting the cell size ensures that event weights are only
     /// redistributed between events that are sufficiently similar.
     /// The downside is that not all negative weights may be cancelled.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_non_negative)]
     pub(crate) max_cell_size: Option<f64>,
 
     /// Comma-separated list of weights to include in the resampling
diff --git a/src/bin/opt_partition.rs b/src/bin/opt_partition.rs
index 2572155..d1de662 100644
--- a/src/bin/opt_partition.rs
+++ b/src/bin/opt_partition.rs
@@ -65,7 +65,7 @@ variable."
     pub(crate) threads: usize,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 }
 
-- 
2.43.0


From a72eaea922c81fdae9c406b7fff07a198d1db180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 36/47] fix: leave particles along the beam axis out of jets

A single particle without transverse momentum makes the anti-kt
clustering panic if there are at least 25 particles.
---
 src/cluster.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/cluster.rs b/src/cluster.rs
index 1d629a1..6d6286c 100644
--- a/src/cluster.rs
+++ b/src/cluster.rs
@@ -76,22 +76,22 @@ impl DefaultClustering {
         }
         // Check photon is sufficiently isolated
         let photon_mom = p;
-        let p = PseudoJet::from(p);
+        let p = pseudojet(p);
         let mut is_original_photon_found = false;
         let mut cone_mom = PseudoJet::new();
         for (e_id, particles) in event {
             // ignore neutrinos/muons in isolation cone
             if !e_id.abs().is_neutrino() && !is_muon(e_id.abs()) {
-                for &ep in particles.iter() {
+                for ep in particles.iter() {
                     // ignore the original photon itself
                     if !is_original_photon_found
                         && is_photon(*e_id)
-                        && ep == *photon_mom
+                        && ep == photon_mom
                     {
                         is_original_photon_found = true;
                         continue;
                     }
-                    let ep = PseudoJet::from(ep);
+                    let ep = pseudojet(ep);
                     if ep.delta_r(&p) < photon_def.radius {
                         cone_mom += ep;
                     }
@@ -127,7 +127,7 @@ impl Clustering for DefaultClustering {
                 if self.is_isolated(p, outgoing.as_slice()) {
                     ev.add_outgoing(PID_ISOLATED_PHOTON, *p);
                 } else if self.lepton_def.is_some() {
-                    clustered_to_leptons.push(p.into())
+                    clustered_to_leptons.push(pseudojet(p))
                 } else {
                     ev.add_outgoing(photon, *p);
                 }
@@ -139,11 +139,11 @@ impl Clustering for DefaultClustering {
         for (id, out) in outgoing {
             if is_parton(id) || is_hadron(id.abs()) {
                 for p in out.iter() {
-                    clustered_to_jets.push(p.into());
+                    clustered_to_jets.push(pseudojet(p));
                 }
             } else if self.is_clustered_to_lepton(id) {
                 for p in out.iter() {
-                    clustered_to_leptons.push(p.into());
+                    clustered_to_leptons.push(pseudojet(p));
                 }
             } else if self.include_neutrinos || !id.abs().is_neutrino() {
                 for p in out.iter() {
@@ -269,11 +269,28 @@ pub(crate) const PID_JET: ParticleID = ParticleID::new(81);
 pub(crate) const PID_DRESSED_LEPTON: ParticleID = ParticleID::new(82);
 pub(crate) const PID_ISOLATED_PHOTON: ParticleID = ParticleID::new(83);
 
+/// Convert a momentum to a pseudojet with a well-defined rapidity
+///
+/// After rounding, the energy of a particle close to the beam axis can
+/// be lower than the modulus of its spatial momentum.
+fn pseudojet(p: &FourVector) -> PseudoJet {
+    let mut p = *p;
+    if p[0] < p[3].abs() {
+        let missing_energy = p.spatial_norm() - p[0];
+        p += [missing_energy, n64(0.), n64(0.), n64(0.)].into();
+    }
+    p.into()
+}
+
 /// Cluster the given `partons` into jets
+///
+/// Partons along the beam axis are never part of a jet.
 pub fn cluster(
-    partons: Vec<PseudoJet>,
+    mut partons: Vec<PseudoJet>,
     jet_def: &JetDefinition,
 ) -> Vec<PseudoJet> {
+    // the distance to such partons is not well-defined
+    partons.retain(|p| p.pt2() > 0.);
     let minpt2 = jet_def.min_pt * jet_def.min_pt;
     let cut = |jet: PseudoJet| jet.pt2() > minpt2;
     let r = jet_def.radius;
-- 
2.43.0


From 81dd72ad12fd9ad5b5d0bfb355169c6c6efb6705 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 37/47] fix: report LHEF events with a missing end tag

---
 src/lhef.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lhef.rs b/src/lhef.rs
index 530565d..38bf581 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -73,6 +73,12 @@ impl FileReader {
             Ok(record) => record,
             Err(err) => return Some(Err(Utf8Error::from(err).into())),
         };
+        if event_tags(&record) > 1 {
+            return Some(Err(ReadError::FindEntry(
+                "</event>",
+                take_chars(&record, 100),
+            )));
+        }
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
@@ -331,6 +337,17 @@ impl UpdateWeights for FileIO {
     }
 }
 
+// number of `<event>` tags
+fn event_tags(record: &str) -> usize {
+    record
+        .split("<event")
+        .skip(1)
+        .filter(|rest| {
+            rest.starts_with(|c: char| c == '>' || c.is_whitespace())
+        })
+        .count()
+}
+
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
     let (rest, _) = (take_until("\n"), newline).parse(record)?;
-- 
2.43.0


From 21266b805e363df509161e3cac6a82c5bafd1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 38/47] fix: report files without events that are not in a
 known format

---
 src/hepmc2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index e81874a..35ab491 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -120,6 +120,13 @@ fn init_source(
     }
     if header.ends_with(b"\nE") {
         header.pop();
+    } else if !header.trim_ascii().is_empty()
+        && !header.windows(5).any(|w| w == b"HepMC")
+    {
+        return Err(Read(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Found neither events nor a HepMC header",
+        )));
     }
     Ok((header, buf))
 }
-- 
2.43.0


From ffb3a6f7b1e299740a9330fd94ba2af1246294c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 39/47] fix: do not panic or abort if input files claim too
 many events

---
 src/cres.rs         | 7 ++++++-
 src/io.rs           | 4 ++--
 src/stripper_xml.rs | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 0ae8b06..4a3535a 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -62,6 +62,9 @@ use crate::io::EventRecord;
 use crate::progress_bar::ProgressBar;
 use crate::traits::*;
 
+// maximum number of events for which memory is allocated ahead of reading
+const MAX_RESERVE: usize = 1 << 20;
+
 /// Build a new [Cres] object
 #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
 pub struct CresBuilder<R, C, Cl, S, U> {
@@ -251,7 +254,9 @@ where
             info!("Reading events");
             ProgressBar::default()
         };
-        let events = Mutex::new(Vec::with_capacity(expected_nevents));
+        // don't blindly trust the number of events claimed by the input
+        let events =
+            Mutex::new(Vec::with_capacity(expected_nevents.min(MAX_RESERVE)));
         {
             let converter = &self.converter;
             let clustering = &self.clustering;
diff --git a/src/io.rs b/src/io.rs
index 18d6e43..a0b1ff9 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -625,10 +625,10 @@ fn combine_size_hints(
     mut h: (usize, Option<usize>),
     g: (usize, Option<usize>),
 ) -> (usize, Option<usize>) {
-    h.0 += g.0;
+    h.0 = h.0.saturating_add(g.0);
     h.1 = match (h.1, g.1) {
         (None, _) | (_, None) => None,
-        (Some(h), Some(g)) => Some(h + g),
+        (Some(h), Some(g)) => h.checked_add(g),
     };
     h
 }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 9e8bbfe..7e7b602 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -324,7 +324,7 @@ where
             }
             XMLTag::Eventrecord { name, nevents, .. } => {
                 let entry = rescale.entry(name).or_default();
-                entry.1 += nevents;
+                entry.1 = entry.1.saturating_add(nevents);
                 event_files.push((path.to_owned(), out))
             }
         }
-- 
2.43.0


From d26fd3bb233507f89f62f810da6012ad30a83990 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 40/47] fix: report infinite weights and momenta with infinite
 squares

---
 src/hepmc2.rs       | 10 +++++-----
 src/lhef.rs         | 16 ++++++++--------
 src/parsing.rs      | 17 ++++++++++++++++-
 src/stripper_xml.rs | 23 ++++++++++-------------
 4 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 35ab491..6d35255 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -18,7 +18,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, u32_entry},
+    parsing::{any_entry, double_entry, i32_entry, momentum_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -458,11 +458,11 @@ fn parse_particle_line<'a>(
         any_entry(&record[1..]).map_err(|_| parse_err("barcode entry"))?;
     let (rest, id) =
         i32_entry(rest).map_err(|_| parse_err("particle id entry"))?;
-    let (rest, px) = double_entry(rest).map_err(|_| parse_err("px entry"))?;
-    let (rest, py) = double_entry(rest).map_err(|_| parse_err("py entry"))?;
-    let (rest, pz) = double_entry(rest).map_err(|_| parse_err("pz entry"))?;
+    let (rest, px) = momentum_entry(rest).map_err(|_| parse_err("px entry"))?;
+    let (rest, py) = momentum_entry(rest).map_err(|_| parse_err("py entry"))?;
+    let (rest, pz) = momentum_entry(rest).map_err(|_| parse_err("pz entry"))?;
     let (rest, e) =
-        double_entry(rest).map_err(|_| parse_err("energy entry"))?;
+        momentum_entry(rest).map_err(|_| parse_err("energy entry"))?;
     let (rest, _m) = any_entry(rest).map_err(|_| parse_err("mass entry"))?;
     let (rest, status) =
         i32_entry(rest).map_err(|_| parse_err("particle status entry"))?;
diff --git a/src/lhef.rs b/src/lhef.rs
index 38bf581..374d927 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -23,7 +23,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, non_space},
+    parsing::{any_entry, double_entry, i32_entry, momentum_entry, non_space},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -283,13 +283,13 @@ impl LHEFParser for Converter {
             let (rest, _) = count(any_entry, 4).parse(rest).map_err(|_| {
                 parse_err("entries before particle momentum", rest)
             })?;
-            let (rest, px) =
-                double_entry(rest).map_err(|_| parse_err("px entry", rest))?;
-            let (rest, py) =
-                double_entry(rest).map_err(|_| parse_err("py entry", rest))?;
-            let (rest, pz) =
-                double_entry(rest).map_err(|_| parse_err("py entry", rest))?;
-            let (_, e) = double_entry(rest)
+            let (rest, px) = momentum_entry(rest)
+                .map_err(|_| parse_err("px entry", rest))?;
+            let (rest, py) = momentum_entry(rest)
+                .map_err(|_| parse_err("py entry", rest))?;
+            let (rest, pz) = momentum_entry(rest)
+                .map_err(|_| parse_err("py entry", rest))?;
+            let (_, e) = momentum_entry(rest)
                 .map_err(|_| parse_err("energy entry", rest))?;
             event.add_outgoing(id, [n64(e), n64(px), n64(py), n64(pz)].into());
         }
diff --git a/src/parsing.rs b/src/parsing.rs
index c9a6138..54257a2 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -7,8 +7,23 @@ use nom::{
     IResult, Parser,
 };
 
+// the squares of larger momenta are not finite
+const MAX_MOMENTUM: f64 = 1e150;
+
+pub(crate) fn finite_double(input: &str) -> IResult<&str, f64> {
+    verify(double, |f: &f64| f.is_finite()).parse(input)
+}
+
+pub(crate) fn momentum_component(input: &str) -> IResult<&str, f64> {
+    verify(double, |f: &f64| f.abs() <= MAX_MOMENTUM).parse(input)
+}
+
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, verify(double, |f: &f64| !f.is_nan())).parse(line)
+    preceded(space1, finite_double).parse(line)
+}
+
+pub(crate) fn momentum_entry(line: &str) -> IResult<&str, f64> {
+    preceded(space1, momentum_component).parse(line)
 }
 
 pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 7e7b602..536e895 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -12,7 +12,7 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{char, i32, multispace0, space0, space1, u64},
-    combinator::{all_consuming, verify},
+    combinator::all_consuming,
     sequence::preceded,
     IResult, Parser,
 };
@@ -31,6 +31,7 @@ use crate::{
         EventFileReader, EventRecord, FileIOError, ReadError, Utf8Error,
         WriteError,
     },
+    parsing::{finite_double, momentum_component},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -205,7 +206,7 @@ impl FileIO {
         let (rest, start) = weight_start(record.as_str())
             .map_err(|_| parse_err("start of event record", record))?;
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            finite_double(rest).map_err(|_| parse_err("weight entry", rest))?;
         let start = start.len();
         let end = record.len() - rest.len();
         record.replace_range(
@@ -240,8 +241,8 @@ impl FileIO {
             // TODO: code duplication with `rescale_weight`
             let (rest, start) = weight_start(record.as_str())
                 .map_err(|_| parse_err("start of event record", &record))?;
-            let (rest, old_weight) =
-                double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            let (rest, old_weight) = finite_double(rest)
+                .map_err(|_| parse_err("weight entry", rest))?;
 
             let weight = if self.weight_scale == 0. {
                 // all weights vanish, whatever we write
@@ -566,7 +567,7 @@ impl StripperXmlParser for Converter {
             .map_err(|_| parse_err("start of event record", record))?;
 
         let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+            finite_double(rest).map_err(|_| parse_err("weight entry", rest))?;
 
         // TODO: it might be best to do the weight rescaling here, but
         // the Converter doesn't have that information
@@ -638,13 +639,13 @@ fn particle_id(line: &str) -> IResult<&str, ParticleID> {
 fn particle_momentum(line: &str) -> IResult<&str, FourVector> {
     let (rest, p) = (
         space0,
-        double,
+        momentum_component,
         char(','),
-        double,
+        momentum_component,
         char(','),
-        double,
+        momentum_component,
         char(','),
-        double,
+        momentum_component,
         space0,
     )
         .parse(line)?;
@@ -682,7 +683,3 @@ impl UpdateWeights for FileIO {
         self.into_io_error(res.map_err(WriteError::IO))
     }
 }
-
-fn double(input: &str) -> IResult<&str, f64> {
-    verify(nom::number::complete::double, |f: &f64| !f.is_nan()).parse(input)
-}
-- 
2.43.0


From 9f9a2c4f61d9d9faa375d34d0a15ab2efaceccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 41/47] fix: pass the weights themselves to distance functions
 in C

---
 src/c_api/distance.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..3fec8bb 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -42,20 +42,22 @@ impl Distance for DistanceFn {
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
+        let weights1 = extract_weights(ev1);
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
+        let weights2 = extract_weights(ev2);
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -64,6 +66,10 @@ impl Distance for DistanceFn {
     }
 }
 
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From e6a14c96f601970e77119155b0c447bdeb0e385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 42/47] fix: unescape channel names in STRIPPER XML event files

---
 src/stripper_xml.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 536e895..5b89ddd 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -17,7 +17,7 @@ use nom::{
     IResult, Parser,
 };
 use particle_id::ParticleID;
-use quick_xml::events::attributes::Attribute;
+use quick_xml::{escape::unescape, events::attributes::Attribute};
 use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
@@ -399,7 +399,22 @@ pub(crate) fn extract_xml_info(r: impl BufRead) -> Result<XMLTag, CreateError> {
                                         })?;
                                     nsubevents = Some(val);
                                 }
-                                b"name" => name = Some(to_string(attr.value)?),
+                                b"name" => {
+                                    let val = to_string(attr.value)?;
+                                    // names in normalisation files
+                                    // are also unescaped
+                                    match unescape(&val) {
+                                        Ok(val) => name = Some(val.into()),
+                                        Err(_) => {
+                                            return Err(Error::AttrType {
+                                                attr: "name",
+                                                val,
+                                                wanted: "string",
+                                            }
+                                            .into())
+                                        }
+                                    }
+                                }
                                 b"as" => {
                                     let (_, val) = parse_u64(&attr)
                                         .map_err(|_| attr_err("as", &attr))?;
-- 
2.43.0


From 802c91c136065c97562f1873d9189cd51b680335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 43/47] fix: recognise ends of groups of STRIPPER XML events
 with blanks

---
 src/bin/classify-events.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 589faae..a2cb8c6 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -332,11 +332,19 @@ fn split_group_start(text: &[u8]) -> (&[u8], &[u8]) {
 /// Split a STRIPPER XML event record at the tag ending the group of events
 #[cfg(feature = "stripper-xml")]
 fn split_group_end(event: &[u8]) -> Option<(&[u8], &[u8])> {
-    const GROUP_END: &[u8] = b"</e>";
-    let pos = event
+    const GROUP_END: &[u8] = b"</e";
+    let mut end = event.len();
+    while let Some(pos) = event[..end]
         .windows(GROUP_END.len())
-        .rposition(|w| w == GROUP_END)?;
-    Some((&event[..pos], &event[(pos + GROUP_END.len())..]))
+        .rposition(|w| w == GROUP_END)
+    {
+        let rest = event[(pos + GROUP_END.len())..].trim_ascii_start();
+        if let Some(rest) = rest.strip_prefix(b">") {
+            return Some((&event[..pos], rest));
+        }
+        end = pos;
+    }
+    None
 }
 
 fn get_footer(format: FileFormat) -> &'static str {
-- 
2.43.0


From 67e04cda2754f12279016225e5cc258bdd972afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 44/47] fix: reject output files that are links to the same
 missing file

---
 src/io.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index a0b1ff9..5e02339 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -307,6 +307,23 @@ enum FileId {
 }
 
 fn file_id(path: &Path) -> FileId {
+    // same limit as on Linux
+    const MAX_SYMLINKS: usize = 40;
+
+    // symbolic links to files that do not exist yet
+    let mut path = path.to_owned();
+    for _ in 0..MAX_SYMLINKS {
+        if path.exists() {
+            break;
+        }
+        let Ok(target) = path.read_link() else {
+            break;
+        };
+        path.pop();
+        path.push(target);
+    }
+    let path = path.as_path();
+
     #[cfg(unix)]
     if let Ok(metadata) = path.metadata() {
         use std::os::unix::fs::MetadataExt;
-- 
2.43.0


From 66424b1c655fa760663ca967690f5401b5abef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 45/47] fix: report no negative weights if all weights vanish

---
 src/cres.rs      |  3 ++-
 src/resampler.rs | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 4a3535a..c28de9d 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -60,6 +60,7 @@ use thiserror::Error;
 use crate::event::Event;
 use crate::io::EventRecord;
 use crate::progress_bar::ProgressBar;
+use crate::resampler::neg_weight_fraction;
 use crate::traits::*;
 
 // maximum number of events for which memory is allocated ahead of reading
@@ -231,7 +232,7 @@ where
         );
         info!(
             "Final negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
+            neg_weight_fraction(sum_wt, sum_neg_wt)
         );
 
         for event in events {
diff --git a/src/resampler.rs b/src/resampler.rs
index 7d9a5ab..10dce95 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -48,11 +48,23 @@ impl<D, N, O, S> Resampler<D, N, O, S> {
         );
         info!(
             "Negative weight fraction: {:.3}",
-            -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
+            neg_weight_fraction(sum_wt, sum_neg_wt)
         );
     }
 }
 
+/// Fraction of negative weights among the absolute values of all weights
+///
+/// This is zero if all weights vanish.
+pub(crate) fn neg_weight_fraction(sum_wt: N64, sum_neg_wt: N64) -> N64 {
+    let sum_abs_wt = sum_wt - sum_neg_wt * 2.;
+    if sum_abs_wt > 0. {
+        -sum_neg_wt / sum_abs_wt
+    } else {
+        n64(0.)
+    }
+}
+
 impl<D, N, O, S, T> Resample for Resampler<D, N, O, S>
 where
     D: Distance + Send + Sync,
-- 
2.43.0


From d1d37ca58dde370c2832fa6961ec5bd454734e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 46/47] fix: read all lz4 frames and refuse incomplete ones

---
 src/compression.rs | 60 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 4b69f76..299b3c2 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, BufReader, Write};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Read, Write};
 
 use bzip2::{read::MultiBzDecoder, write::BzEncoder};
 use flate2::{read::MultiGzDecoder, write::GzEncoder};
@@ -18,8 +18,9 @@ pub enum Compression {
 
 /// Automatic decompression
 ///
-/// Files compressed in the bzip2 and gzip formats can consist of several
-/// compressed streams. `audec` would only decompress the first one.
+/// Files compressed in the bzip2, gzip, and lz4 formats can consist of
+/// several compressed streams. `audec` would only decompress the first
+/// one, and take an incomplete lz4 stream for a complete one.
 pub(crate) fn auto_decompress<'a, B: 'a + BufRead>(
     mut r: B,
 ) -> Box<dyn BufRead + 'a> {
@@ -30,10 +31,63 @@ pub(crate) fn auto_decompress<'a, B: 'a + BufRead>(
         Ok([0x1f, 0x8b, ..]) => {
             Box::new(BufReader::new(MultiGzDecoder::new(r)))
         }
+        Ok([0x04, 0x22, 0x4d, 0x18, ..]) => {
+            Box::new(BufReader::new(MultiLz4Decoder::new(r)))
+        }
         _ => audec::auto_decompress(r),
     }
 }
 
+/// Decoder for files made of one or more lz4 frames
+struct MultiLz4Decoder<R> {
+    source: Option<R>,
+    decoder: Option<lz4::Decoder<R>>,
+}
+
+impl<R: BufRead> MultiLz4Decoder<R> {
+    fn new(source: R) -> Self {
+        Self {
+            source: Some(source),
+            decoder: None,
+        }
+    }
+}
+
+impl<R: BufRead> Read for MultiLz4Decoder<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        loop {
+            if let Some(decoder) = &mut self.decoder {
+                let nread = decoder.read(buf)?;
+                if nread > 0 {
+                    return Ok(nread);
+                }
+            }
+            if let Some(decoder) = self.decoder.take() {
+                let (source, res) = decoder.finish();
+                if res.is_err() {
+                    return Err(Error::new(
+                        ErrorKind::UnexpectedEof,
+                        "Incomplete lz4 frame",
+                    ));
+                }
+                self.source = Some(source);
+            }
+            let Some(source) = &mut self.source else {
+                // after an error
+                return Ok(0);
+            };
+            if source.fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.decoder =
+                self.source.take().map(lz4::Decoder::new).transpose()?;
+        }
+    }
+}
+
 /// A writer that has to be finished after everything is written
 pub trait FinishWrite: Write {
     /// Write everything that is still pending
-- 
2.43.0


From ad39f74f5a9cf8d94bbad8a9c57509b98e16c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 47/47] fix: read the first event of HepMC2 files without
 header

---
 src/hepmc2.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 6d35255..248333e 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -113,12 +113,13 @@ fn init_source(
 
     // read until start of first event
     let mut header = Vec::new();
-    while !header.ends_with(b"\nE") {
+    let at_event = |header: &[u8]| header == b"E" || header.ends_with(b"\nE");
+    while !at_event(&header) {
         if buf.read_until(b'E', &mut header).map_err(Read)? == 0 {
             break;
         }
     }
-    if header.ends_with(b"\nE") {
+    if at_event(&header) {
         header.pop();
     } else if !header.trim_ascii().is_empty()
         && !header.windows(5).any(|w| w == b"HepMC")
-- 
2.43.0

