From 04061a10f0b16debab2865c906fef99123b6bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:38 +0000
Subject: [PATCH 01/26] fix: iterator: exact pieces and line numbers for any
 read pattern

The long line drop kept zero padding and threw away the data following the
end of the line, a failed read left zero padding in the buffer, a backslash
hid the following new line, a separator at a chunk boundary was measured
differently, and the recursion grew with the number of blank lines or reads.
---
 iterator/src/iterator.rs | 145 ++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 85 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..947bd7b 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -40,17 +40,6 @@ enum Sep {
     Json,
 }
 
-impl Sep {
-    // The size of the separator
-    fn len(&self) -> usize {
-        match self {
-            Sep::NewLine => 1,
-            Sep::SubLine => 2,
-            Sep::Json => 1,
-        }
-    }
-}
-
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum State {
     // We reached the end of the file.
@@ -103,8 +92,11 @@ pub struct BytesLines<R: Read> {
     chunk_size: usize,
     max_line_length: usize,
     split_json: Option<JsonState>,
+    // How much of the buffer was already scanned.
     prev_pos: usize,
     escaped: bool,
+    // The begining of the current line was discarded because it is over the length limit.
+    dropping: bool,
 }
 
 struct JsonState {
@@ -118,11 +110,23 @@ impl<R: Read> Iterator for BytesLines<R> {
     type Item = Result<LogLine>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
-            State::Scanning(_) => self.get_slice(),
+        while self.state != State::EoF {
+            // When the whole buffer was scanned, we need more data.
+            if self.prev_pos == self.buf.len() {
+                match self.read_chunk() {
+                    // We read some data.
+                    Ok(n) if n > 0 => {}
+                    // We reached the end of the reader.
+                    Ok(_) => return self.last_slice().map(Ok),
+                    // There was a reading error, we return it.
+                    Err(e) => return Some(Err(e)),
+                }
+            }
+            if let Some(line) = self.get_slice() {
+                return Some(Ok(line));
+            }
         }
+        None
     }
 }
 
@@ -150,53 +154,55 @@ impl<R: Read> BytesLines<R> {
             line_count: 0,
             prev_pos: 0,
             escaped: false,
+            dropping: false,
             split_json,
         }
     }
 
-    // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    // Read a new chunk at the end of the buffer
+    fn read_chunk(&mut self) -> Result<usize> {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
-        match self.reader.read(&mut self.buf[pos..]) {
-            // We read some data.
-            Ok(n) if n > 0 => {
-                self.buf.truncate(pos + n);
-                self.get_slice()
-            }
-
-            // Step H: We reached the end of the reader, but we have left-overs.
-            Ok(_) if pos > 0 => {
-                self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
-            }
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+        let res = self.reader.read(&mut self.buf[pos..]);
+        // Only keep the data that was read.
+        self.buf.truncate(pos + *res.as_ref().unwrap_or(&0));
+        res
+    }
 
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+    // Step H: We reached the end of the reader, return the left-overs.
+    fn last_slice(&mut self) -> Option<LogLine> {
+        let pos = self.buf.len();
+        if pos > 0 && pos <= self.max_line_length && !self.dropping {
+            self.update_line_counter(State::EoF);
+            Some((self.buf.split_to(pos).freeze(), self.line_count))
+        } else {
+            None
         }
     }
 
     // Find the next line in the buffer
-    fn get_slice(&mut self) -> Option<Result<LogLine>> {
+    fn get_slice(&mut self) -> Option<LogLine> {
         match self.find_next_line() {
             // Step J: The current line is over the limit, and we don't know where it ends.
-            None if self.buf.len() > self.max_line_length => {
+            // A trailing '\\' does not count because it may be the start of a sub line separator.
+            None if self.dropping
+                || self.buf.len() - self.escaped as usize > self.max_line_length =>
+            {
                 self.prev_pos = 0;
                 self.buf.clear();
                 self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
+                self.dropping = true;
+                None
             }
 
             // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
+            Some((pos, next)) if self.dropping || pos > self.max_line_length => {
                 self.prev_pos = 0;
                 // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
-                self.get_slice()
+                self.buf.advance(next);
+                self.dropping = false;
+                None
             }
 
             // Step E: We haven't found the end of the line, we need more data.
@@ -204,31 +210,34 @@ impl<R: Read> BytesLines<R> {
                 // Step F: reserve() will attempt to reclaim space in the buffer.
                 self.prev_pos = self.buf.len();
                 self.buf.reserve(self.chunk_size);
-                self.read_slice()
+                None
             }
 
             // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
+            Some((pos, next)) => {
                 self.prev_pos = 0;
                 // Step C: split_to() creates a new zero copy reference to the buffer.
                 let res = self.buf.split_to(pos).freeze();
                 // Step D: advance the starting position
-                self.buf.advance(sep.len());
+                self.buf.advance(next - pos);
                 if res.is_empty() {
-                    self.get_slice()
+                    None
                 } else {
-                    Some(Ok((res, self.line_count)))
+                    Some((res, self.line_count))
                 }
             }
         }
     }
 
-    // Find the next line position and update the line count
-    fn find_next_line(&mut self) -> Option<(usize, Sep)> {
+    // Find the current line end and the next line start, and update the line count
+    fn find_next_line(&mut self) -> Option<(usize, usize)> {
         let slice = self.buf.as_ref();
         for (pos, c) in slice[self.prev_pos..].iter().enumerate() {
             let c = *c as char;
-            let sep = if self.escaped {
+            let sep = if c == '\n' {
+                self.escaped = false;
+                Some(Sep::NewLine)
+            } else if self.escaped {
                 self.escaped = false;
                 if c == 'n' {
                     Some(Sep::SubLine)
@@ -238,8 +247,6 @@ impl<R: Read> BytesLines<R> {
             } else if c == '\\' {
                 self.escaped = true;
                 None
-            } else if c == '\n' {
-                Some(Sep::NewLine)
             } else {
                 match self.split_json {
                     Some(ref mut json_state) => match_json_kv(c, json_state),
@@ -250,10 +257,11 @@ impl<R: Read> BytesLines<R> {
                 // We found a separator.
                 self.update_line_counter(State::Scanning(sep));
                 let line_separator_pos = match sep {
-                    Sep::SubLine => self.prev_pos + pos - 1,
+                    // The begining of the separator may have been discarded with a long line.
+                    Sep::SubLine => (self.prev_pos + pos).saturating_sub(1),
                     _ => self.prev_pos + pos,
                 };
-                return Some((line_separator_pos, sep));
+                return Some((line_separator_pos, self.prev_pos + pos + 1));
             }
         }
         None
@@ -266,39 +274,6 @@ impl<R: Read> BytesLines<R> {
         }
         self.state = state;
     }
-
-    // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
-        self.buf.resize(self.chunk_size, 0);
-        match self.reader.read(&mut self.buf) {
-            // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
-                }
-            },
-
-            // We reached the end of the reader, this is the end.
-            Ok(_) => None,
-
-            // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
-        }
-    }
 }
 
 // Check if the given char is a json k/v separator.
-- 
2.43.0


From d905af11066be0d13f0566f73fa0104119586339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:40 +0000
Subject: [PATCH 02/26] fix: process: stop at the analysis task, keep contexts
 and anomalies at batch and file ends

After the log-classify task line, the next call resumed reading. At the end of
the input, lines that are not new were not used as after context. The after
context taken from the tail of a batch was repeated as before context of the
next one. On a read error the lines already buffered were not inspected.
---
 model/src/process.rs | 58 ++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..5291aed 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,10 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// Set when the rest of the reader must not be inspected.
+    done: bool,
+    /// A read error to be returned after the anomalies found before it.
+    error: Option<anyhow::Error>,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,14 +139,45 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            done: false,
+            error: None,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
-        while let Some(line) = self.reader.next() {
-            let line = line?;
+        if let Some(err) = self.error.take() {
+            return Err(err);
+        }
+        match self.read_chunks() {
+            Ok(true) => return Ok(()),
+            Ok(false) => {}
+            // Keep the anomalies found before the error
+            Err(err) => self.error = Some(err),
+        }
+
+        // We reached the end of the file and the last chunk is not completed
+        if !self.buffer.is_empty() {
+            self.do_search_anomalies();
+        }
+        if let Some(anomaly) = self.current_anomaly.take() {
+            // No more after context available
+            self.anomalies.push_back(anomaly);
+        }
+        match self.anomalies.is_empty() {
+            true => self.error.take().map_or(Ok(()), Err),
+            false => Ok(()),
+        }
+    }
+
+    /// Process the lines until a chunk contains anomalies, returns false at the end of the reader.
+    fn read_chunks(&mut self) -> Result<bool> {
+        while !self.done {
+            let line = match self.reader.next() {
+                Some(line) => line?,
+                None => break,
+            };
             let raw_str = std::str::from_utf8(&line.0[..])
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
             self.line_count += 1;
@@ -151,6 +186,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.done = true;
                 break;
             }
 
@@ -169,28 +205,18 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 if self.targets.len() == CHUNK_SIZE {
                     self.do_search_anomalies();
                     if !self.anomalies.is_empty() {
-                        return Ok(());
+                        return Ok(true);
                     }
                 }
             } else if self.buffer.len() > CHUNK_SIZE * 10 {
                 // the source contains mostly duplicate line.
                 self.do_search_anomalies();
                 if !self.anomalies.is_empty() {
-                    return Ok(());
+                    return Ok(true);
                 }
             }
         }
-
-        // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
-            self.do_search_anomalies();
-        }
-        if let Some(anomaly) = &self.current_anomaly {
-            // No more after context available
-            self.anomalies.push_back(anomaly.clone());
-            self.current_anomaly = None;
-        }
-        Ok(())
+        Ok(false)
     }
 
     /// Helper function for the anomalies_from_reader implementation.
@@ -273,6 +299,8 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
+                    // These lines can't be the before context of the next chunk.
+                    last_context_pos += 1;
                     if anomaly.after.len() >= CTX_DISTANCE {
                         // The current anomaly is completed. TODO: try using std::mem::replace
                         self.anomalies.push_back(anomaly.clone());
-- 
2.43.0


From 96d16b68cbd65071f83e95c3aece13f935dd513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 03/26] fix: reader: decompress local .gz files

Path::extension does not include the dot, so compressed files were read as text.
---
 model/src/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..115e46b 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -43,6 +43,7 @@ mod remote {
 pub enum DecompressReader {
     Flat(File),
     Gz(GzDecoder<File>),
+    MultiGz(MultiGzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
@@ -52,8 +53,9 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
-        Gz(GzDecoder::new(fp))
+    Ok(if extension == "gz" {
+        // The file may be a concatenation of multiple gzip members
+        MultiGz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -109,6 +111,7 @@ impl Read for DecompressReader {
         match self {
             Flat(r) => r.read(buf),
             Gz(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
         }
-- 
2.43.0


From 1a5d5d5486e8e45e207f9d5201253bfa99018a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 04/26] fix: model: do not panic on the relative name of an
 undecodable path

---
 model/src/model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..bead3cc 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,9 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            Source::Local(base_len, _) | Source::Remote(base_len, _) => {
+                self.as_str().get(*base_len..).unwrap_or("")
+            }
         }
     }
 
-- 
2.43.0


From 19e25323285757051e04b1c30570ea7eed6f0ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 05/26] fix: files: same index name for a compressed rotated
 log

---
 model/src/files.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..cf35f93 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -150,6 +150,7 @@ impl IndexName {
             Some((_, name)) => format!("{}/{}", name, filename),
         };
 
+        let is_symbol = |c: char| matches!(c, '/' | '.' | '_' | '-');
         let model_name = if shortfilename.starts_with("qemu/instance-") {
             "qemu/instance".to_string()
         } else if shortfilename.starts_with("pod/") {
@@ -160,11 +161,13 @@ impl IndexName {
             // removes number and symbols
             shortfilename
                 .replace(
-                    |c: char| !c.is_ascii_alphabetic() && !matches!(c, '/' | '.' | '_' | '-'),
+                    |c: char| !c.is_ascii_alphabetic() && !is_symbol(c),
                     "",
                 )
-                .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
+                .trim_matches(is_symbol)
                 .trim_end_matches(".gz")
+                // the rotation suffix may be before the .gz
+                .trim_end_matches(is_symbol)
                 .to_string()
         };
         IndexName(model_name)
-- 
2.43.0


From 606a14c27c0cab5f333810891724da14c51af5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 06/26] fix: model: a log that can't be opened does not hide
 the rest of its group

---
 model/src/model.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index bead3cc..f8fa921 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -506,10 +506,7 @@ impl Model {
                                     });
                                 }
                             }
-                            Err(err) => {
-                                read_errors.push((source.clone(), format!("{}", err)));
-                                break;
-                            }
+                            Err(err) => read_errors.push((source.clone(), format!("{}", err))),
                         }
                     }
                 }
-- 
2.43.0


From 028f12b105c6b01b177e1ca71c992e671c4fc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 07/26] fix: model: read each baseline the way it is inspected

The json mode of the first source was used for the whole group, and a
compressed json file was not split.
---
 model/src/files.rs   |  5 +----
 model/src/model.rs   | 11 ++++-------
 model/src/process.rs |  3 ++-
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index cf35f93..a98fd70 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -160,10 +160,7 @@ impl IndexName {
         } else {
             // removes number and symbols
             shortfilename
-                .replace(
-                    |c: char| !c.is_ascii_alphabetic() && !is_symbol(c),
-                    "",
-                )
+                .replace(|c: char| !c.is_ascii_alphabetic() && !is_symbol(c), "")
                 .trim_matches(is_symbol)
                 .trim_end_matches(".gz")
                 // the rotation suffix may be before the .gz
diff --git a/model/src/model.rs b/model/src/model.rs
index f8fa921..c8b7ed4 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -93,7 +93,8 @@ impl Source {
         Source::Local(0, p)
     }
     pub fn is_json(&'_ self) -> bool {
-        self.get_relative().ends_with(".json")
+        let name = self.get_relative();
+        name.strip_suffix(".gz").unwrap_or(name).ends_with(".json")
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
@@ -261,13 +262,9 @@ impl Index {
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
         let created_at = SystemTime::now();
         let start_time = Instant::now();
-        let is_json = if let Some(source) = sources.first() {
-            source.is_json()
-        } else {
-            false
-        };
-        let mut trainer = process::ChunkTrainer::new(&mut index, is_json);
+        let mut trainer = process::ChunkTrainer::new(&mut index, false);
         for source in sources {
+            trainer.is_json = source.is_json();
             let reader = match source {
                 Source::Local(_, path_buf) => Source::file_open(path_buf.as_path())?,
                 Source::Remote(prefix, url) => Source::url_open(*prefix, url)?,
diff --git a/model/src/process.rs b/model/src/process.rs
index 5291aed..70c8c80 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -17,7 +17,8 @@ const CHUNK_SIZE: usize = 512;
 /// Helper struct to manage indexing multiples readers.
 pub struct ChunkTrainer<'a> {
     index: &'a mut ChunkIndex,
-    is_json: bool,
+    /// How to split the lines of the next reader
+    pub is_json: bool,
     skip_lines: HashSet<String>,
     baselines: Vec<String>,
     pub line_count: usize,
-- 
2.43.0


From a2b3f95a28f3f9a4a91c726699f4547ca0415200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 08/26] fix: model: report the write errors of the end of a
 model or report file

---
 model/src/model.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c8b7ed4..641ab34 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -239,14 +239,14 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        // Dropping the encoder would ignore the errors of the last writes
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -440,14 +440,14 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        // Dropping the encoder would ignore the errors of the last writes
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From d54f122fc5ed7df43e254b352ccfe7d8e7f91dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 09/26] fix: cache: an entry exists only once it is complete

---
 cache/src/cache.rs | 91 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 12 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..0ad3db7 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -8,6 +8,8 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use std::fs::File;
 use std::io::{Read, Write};
+use std::path::PathBuf;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use url::Url;
 
 // Low level functions to create unique file names
@@ -64,6 +66,9 @@ impl Cache {
     }
 
     pub fn head_set(&self, base: &Url, path: &Url, result: bool) -> Result<bool> {
+        if let Some(known) = self.head(base, path) {
+            return Err(anyhow::anyhow!("Cache already knows: {} {}", path, known));
+        }
         let fp = if result {
             filename::head_success(base, path)
         } else {
@@ -82,10 +87,10 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let entry = self.begin(&filename::http(base, path))?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some(GzEncoder::new(entry, flate2::Compression::fast())),
         })
     }
 
@@ -99,8 +104,9 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let mut entry = self.begin(&filename::httpdir(url))?;
+        bincode::serialize_into(&mut entry, paths).context("Failed to serialize httpdir save")?;
+        entry.commit().context("Failed to save httpdir")
     }
 
     /// Remove a remote file from the cache.
@@ -123,7 +129,26 @@ impl Cache {
         }
     }
 
-    // creates a new cache entry.
+    // prepares a new cache entry, which exists once it is complete.
+    fn begin(&self, path: &str) -> Result<Entry> {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let name = format!(
+            "{}.{}-{}.tmp",
+            path,
+            std::process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        );
+        let target = self.xdg.get_cache_file(path);
+        if target.exists() {
+            return Err(anyhow::anyhow!("Cache file already exist: {:?}", target));
+        }
+        // A dead process may have left a file of that name.
+        let temp = self.xdg.get_cache_file(&name);
+        let _ = std::fs::remove_file(&temp);
+        self.create(&name).map(|file| Entry { file, temp, target })
+    }
+
+    // creates a new cache file.
     fn create(&self, path: &str) -> Result<File> {
         let buf = self.xdg.get_cache_file(path);
         let path = buf.as_path();
@@ -137,10 +162,39 @@ impl Cache {
     }
 }
 
+/// A cache entry being written in a temporary file, which is removed unless it is committed.
+struct Entry {
+    file: File,
+    temp: PathBuf,
+    target: PathBuf,
+}
+
+impl Entry {
+    fn commit(self) -> std::io::Result<()> {
+        std::fs::rename(&self.temp, &self.target)
+    }
+}
+
+impl Write for Entry {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.file.write(buf)
+    }
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.file.flush()
+    }
+}
+
+impl Drop for Entry {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_file(&self.temp);
+    }
+}
+
 /// A Reader object that saves remote data to a local compressed file.
+/// The data is added to the cache when its end is reached, if everything was read and written.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    local: Option<GzEncoder<Entry>>,
 }
 
 impl<R: Read> Read for CacheReader<R> {
@@ -148,13 +202,26 @@ impl<R: Read> Read for CacheReader<R> {
         // Read remote data.
         let remote_read = self.remote.read(buf);
         match remote_read {
-            // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
-            Err(e) => Err(e),
+            // The end of the remote data
+            Ok(0) => {
+                if !buf.is_empty() {
+                    if let Some(local) = self.local.take() {
+                        let _ = local.finish().and_then(Entry::commit);
+                    }
+                }
+            }
+            // Write to the local file, or give up caching
+            Ok(remote_size) => {
+                if let Some(local) = &mut self.local {
+                    if local.write_all(&buf[..remote_size]).is_err() {
+                        self.local = None;
+                    }
+                }
+            }
+            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(_) => self.local = None,
         }
+        remote_read
     }
 }
 
-- 
2.43.0


From 7c0b06303592e1e6a027b4d7593c16abcf4af015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:42 +0000
Subject: [PATCH 10/26] fix: zuul-build: keep durations exact

---
 zuul/src/zuul-build.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zuul/src/zuul-build.rs b/zuul/src/zuul-build.rs
index 8b86a2e..992a5c2 100644
--- a/zuul/src/zuul-build.rs
+++ b/zuul/src/zuul-build.rs
@@ -104,7 +104,7 @@ mod python_utc_without_trailing_z {
     }
 }
 
-// For some reason, durations are sometime provided as f32, e.g. `42.0`
+// For some reason, durations are sometime provided as float, e.g. `42.0`
 mod rounded_float {
     use serde::{self, Deserialize, Deserializer, Serializer};
 
@@ -119,7 +119,8 @@ mod rounded_float {
     where
         D: Deserializer<'de>,
     {
-        let v = f32::deserialize(deserializer)?;
+        // f64 represents every u32 value
+        let v = f64::deserialize(deserializer)?;
         Ok(v as u32)
     }
 }
-- 
2.43.0


From 06d309547d113884104415fb1985dd2f9f3586fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 11/26] fix: httpdir: a crawl ends when its own last task is
 done

---
 httpdir/src/httpdir.rs | 148 +++++++++++++----------------------------
 1 file changed, 46 insertions(+), 102 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..d07858c 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -61,20 +60,15 @@ impl Visitor {
     }
 }
 
-// The message type produced by a worker:
-// - found a file url:  Some(url)
-// - got an error:      Some(error)
-// - finished the work: None
-type Message = Option<Result<Url>>;
+// The message type produced by a worker: a file url, or an error.
+// The channel of a crawl is closed when its last task is done.
+type Message = Result<Url>;
 
 /// The state of the crawler, created calling `Crawler::new()`.
 pub struct Crawler {
     client: Client,
     // A worker pool.
     workers: ThreadPool,
-    // The mpsc channel.
-    rx: Receiver<Message>,
-    tx: Sender<Message>,
 }
 
 // Helper function to create an io Error
@@ -86,48 +80,32 @@ impl Crawler {
     /// Initialize the Crawler state.
     pub fn new() -> Crawler {
         let workers = ThreadPool::new(4);
-        let (tx, rx) = channel();
         let client = Client::builder()
             .danger_accept_invalid_certs(std::env::var("LOGREDUCE_SSL_NO_VERIFY").is_ok())
             .build()
             .expect("Client");
-        Crawler {
-            workers,
-            client,
-            tx,
-            rx,
-        }
+        Crawler { workers, client }
     }
 
     /// A simple implementation to list all the available files.
     pub fn list(&self, url: Url) -> Result<Vec<Url>> {
-        // Submit the initial task.
-        self.start(url);
-        // Wait for all the workers to complete.
-        self.workers.join();
-        // Collect the results.
-        if self.workers.panic_count() > 0 {
-            Err(mk_error("Crawler panicked!"))
-        } else {
-            self.rx.try_iter().flatten().collect()
-        }
+        // Submit the initial task, and wait for all the results.
+        let results: Vec<Message> = self.start(url).into_iter().collect();
+        results.into_iter().collect()
     }
 
-    /// An iterator based implementation which works a bit differently to poll the results.
+    /// An iterator based implementation which yields the results as they are found.
     pub fn walk(self, url: Url) -> impl Iterator<Item = Result<Url>> {
         // Submit the initial task.
-        self.start(url);
-        // Create the iterator state.
-        CrawlerIter {
-            workers: self.workers,
-            abort: false,
-            rx: self.rx,
-        }
+        self.start(url).into_iter()
     }
 
-    fn start(&self, url: Url) {
+    fn start(&self, url: Url) -> Receiver<Message> {
+        let (tx, rx) = channel();
         // Here we pass all the requirements by reference to avoid lifetime issues.
-        Crawler::process(&Visitor::new(), &self.client, &self.workers, &self.tx, url);
+        Crawler::process(&Visitor::new(), &self.client, &self.workers, &tx, url);
+        // Only the tasks hold the sender.
+        rx
     }
 
     // Helper function to handle a single url.
@@ -145,84 +123,50 @@ impl Crawler {
             let client = client.clone();
 
             // Submit the work.
-            pool.execute(move || match http_list(&client, url) {
-                // We decoded some urls.
-                Ok(urls) => {
-                    for url in urls {
-                        if url.path().ends_with("/etc/") {
-                            // Special case to avoid system config directory
-                            continue;
-                        } else if let Some(url) = path_dir(&url) {
-                            // Recursively call the handler on sub directory.
-                            Crawler::process(&visitor, &client, &sub_pool, &tx, url)
-                        } else {
-                            // Send file location to the mpsc channel.
-                            tx.send(Some(Ok(url))).unwrap()
+            pool.execute(move || {
+                let _guard = PanicGuard(tx.clone());
+                match http_list(&client, url) {
+                    // We decoded some urls.
+                    Ok(urls) => {
+                        for url in urls {
+                            if let Some(url) = path_dir(&url) {
+                                if url.path().ends_with("/etc/") {
+                                    // Special case to avoid system config directory
+                                    continue;
+                                }
+                                // Recursively call the handler on sub directory.
+                                Crawler::process(&visitor, &client, &sub_pool, &tx, url)
+                            } else if tx.send(Ok(url)).is_err() {
+                                // Nobody is listening anymore.
+                                return;
+                            }
                         }
                     }
-                    // Indicate we are done.
-                    tx.send(None).unwrap()
-                }
 
-                // An error happened, propagates it.
-                Err(e) => tx.send(Some(Err(e))).unwrap(),
+                    // An error happened, propagates it.
+                    Err(e) => {
+                        let _ = tx.send(Err(e));
+                    }
+                }
             });
         }
     }
 }
 
-impl Default for Crawler {
-    fn default() -> Self {
-        Self::new()
-    }
-}
-
-// The state of the iterator.
-struct CrawlerIter {
-    workers: ThreadPool,
-    abort: bool,
-    rx: Receiver<Message>,
-}
+// Propagates the panic of a task as an error of its crawl.
+struct PanicGuard(Sender<Message>);
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
+impl Drop for PanicGuard {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            let _ = self.0.send(Err(mk_error("Crawler panicked!")));
+        }
     }
 }
 
-impl Iterator for CrawlerIter {
-    type Item = Result<Url>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
-            }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
-
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
-        }
+impl Default for Crawler {
+    fn default() -> Self {
+        Self::new()
     }
 }
 
-- 
2.43.0


From 4e085423f44a84dec33bd7241c3976a993ae34fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 12/26] fix: httpdir: list single character names, decode &amp;
 in links

---
 httpdir/src/httpdir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index d07858c..9c34b29 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -201,15 +201,15 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
-        .map(|c| c.get(1).unwrap().as_str())
+        .map(|c| c.get(1).unwrap().as_str().replace("&amp;", "&"))
         // .map(|link| dbg!(link))
         .map(|link| {
             base_url
-                .join(link)
+                .join(&link)
                 .map_err(|e| mk_error(&format!("Invalid link {}", e)))
         })
         .collect()
-- 
2.43.0


From c414f0ab6701073a43ebfd4cfe22371d52ef7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:24 +0000
Subject: [PATCH 13/26] fix: httpdir: an error page is not an empty index

---
 httpdir/src/httpdir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 9c34b29..c6ded8d 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -186,7 +186,11 @@ fn path_dir(url: &Url) -> Option<Url> {
 /// List the files and directories of a single url.
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
-    match client.get(url).send() {
+    match client
+        .get(url)
+        .send()
+        .and_then(|resp| resp.error_for_status())
+    {
         Ok(resp) => {
             let url = resp.url().clone();
             match resp.text() {
-- 
2.43.0


From 26690b6ad90b39697676a10408278cf834accc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:16 +0000
Subject: [PATCH 14/26] fix: model: only http:// and https:// inputs are urls,
 a bad input is an error

A file whose name starts with http was taken for a url, and an url or a
file name that can't be parsed caused a panic.
---
 model/src/files.rs | 8 ++++----
 model/src/model.rs | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/model/src/files.rs b/model/src/files.rs
index a98fd70..63c14f8 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -6,7 +6,7 @@
 use anyhow::{Context, Result};
 use std::path::Path;
 
-use crate::{Baselines, Content, IndexName, Input, Source};
+use crate::{Baselines, Content, IndexName, Source};
 
 impl Content {
     #[tracing::instrument(level = "debug")]
@@ -25,9 +25,9 @@ impl Content {
     #[tracing::instrument(level = "debug")]
     pub fn discover_baselines_from_path(path: &Path) -> Result<Baselines> {
         // TODO: implement discovery by looking for common rotated file names.
-        let mut path_str = path.to_path_buf().into_os_string().into_string().unwrap();
-        path_str.push_str(".0");
-        let baseline = Content::from_input(Input::Path(path_str))?;
+        let mut name = path.to_path_buf().into_os_string();
+        name.push(".0");
+        let baseline = Content::from_path(Path::new(&name))?;
         Ok(vec![baseline])
     }
 }
diff --git a/model/src/model.rs b/model/src/model.rs
index 641ab34..4c3094a 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -44,13 +44,14 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
     }
     pub fn from_pathbuf(s: PathBuf) -> Input {
-        Input::Path(s.into_os_string().into_string().unwrap())
+        // A name that is not unicode can't be found again
+        Input::Path(s.to_string_lossy().into_owned())
     }
 }
 
@@ -326,7 +327,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From f6e7c4f665ed57a28647d5a1c854dd3564ac24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:58 +0000
Subject: [PATCH 15/26] fix: zuul: build the api url from the path of the build
 page

A /t/ or /build/ elsewhere in the url (prefix, tenant name, query or
fragment) gave the url of another site.
---
 model/src/zuul.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..397bd18 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -170,23 +170,28 @@ fn is_uid(s: &str) -> bool {
         })
 }
 
+/// Replace the last segments of the build page path, its query and fragment.
+fn api_from_page(url: &Url, segments: usize, api_path: &str) -> Result<Url> {
+    let (base_len, _) = url
+        .path()
+        .rmatch_indices('/')
+        .nth(segments - 1)
+        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))?;
+    let mut api = url.clone();
+    api.set_path(&format!("{}{}", &url.path()[..base_len], api_path));
+    api.set_query(None);
+    api.set_fragment(None);
+    Ok(api)
+}
+
 fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
-                .context("Can't recreate zuul api url")
-        })
+    // Remove "/t/tenant/build/uid"
+    api_from_page(url, 4, &format!("/api/tenant/{}/", tenant))
 }
 
 fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
-        .rsplit_once("/build/")
-        .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
-            Url::parse(&format!("{}/api/", base)).context("Can't recreate zuul api url")
-        })
+    // Remove "/build/uid"
+    api_from_page(url, 2, "/api/")
 }
 
 fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
-- 
2.43.0


From 582c93399c4f777b122e482dd3507fa26c51a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:37 +0000
Subject: [PATCH 16/26] fix: zuul: a build without change, log url or ref url
 is not a crash

Such a target is an error, and such a baseline is skipped.
---
 model/src/zuul.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 397bd18..e1d0fb5 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -59,9 +59,11 @@ impl Build {
 
     fn baseline_score(&self, target: &zuul_build::Build, now: &NaiveDate) -> Option<i32> {
         let mut score = 0;
+        // A build without change can't be used
+        let change = target.change?;
         // Rules
         if self.project == target.project {
-            if self.change == target.change? {
+            if self.change == change {
                 // We don't want to compare with the same change
                 score -= 500;
             } else {
@@ -107,7 +109,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +124,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +132,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +141,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("Invalid build: no log url")?,
+        ref_url: build.ref_url.context("Invalid build: no ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("Invalid build: no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -221,7 +223,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From cae0642a1a0c5723235369c93293886503087fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:59 +0000
Subject: [PATCH 17/26] fix: urls: open logs whose url is shorter than 42
 characters

The fixed length slice panicked.
---
 model/src/urls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..5c9f6c6 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,9 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            // The cache is grouped by the beginning of the url, when it is one.
+            let base = url.as_str().get(..42).and_then(|s| Url::parse(s).ok());
+            crate::reader::from_url(base.as_ref().unwrap_or(url), url)
         }
     }
 
-- 
2.43.0


From 4014f86584c14720291e6ef1d0937846543b55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 18/26] fix: reader: decompress remote .gz files

---
 model/src/reader.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 115e46b..eab9317 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -47,6 +47,7 @@ pub enum DecompressReader {
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
+    RemoteGz(Box<dyn Read + Send>),
 }
 use DecompressReader::*;
 
@@ -79,6 +80,28 @@ pub fn head_url(base: &Url, url: &Url) -> Result<bool> {
 }
 
 pub fn from_url(base: &Url, url: &Url) -> Result<DecompressReader> {
+    let reader = open_url(base, url)?;
+    if url.path().ends_with(".gz") {
+        gunzip(reader)
+    } else {
+        Ok(reader)
+    }
+}
+
+// The server may already have decoded the content of a .gz log.
+fn gunzip(mut reader: DecompressReader) -> Result<DecompressReader> {
+    let mut magic = Vec::new();
+    (&mut reader).take(2).read_to_end(&mut magic)?;
+    let is_gz = magic == [0x1f, 0x8b];
+    let reader = std::io::Cursor::new(magic).chain(reader);
+    Ok(RemoteGz(if is_gz {
+        Box::new(MultiGzDecoder::new(reader))
+    } else {
+        Box::new(reader)
+    }))
+}
+
+fn open_url(base: &Url, url: &Url) -> Result<DecompressReader> {
     if *USE_CACHE {
         match CACHE.remote_get(base, url) {
             Some(cache) => {
@@ -114,6 +137,7 @@ impl Read for DecompressReader {
             MultiGz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
+            RemoteGz(r) => r.read(buf),
         }
     }
 }
-- 
2.43.0


From cf2bd840b1357bd8f621f653adc90b75353c3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 19/26] fix: reader: an error page is not a log

---
 model/src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index eab9317..3e6d0a6 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(|resp| resp.error_for_status())
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From 6764ee0c374c950002bebcf19523ab2ea719be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:15 +0000
Subject: [PATCH 20/26] fix: report: escape the texts of the page

---
 report/src/report.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..af69780 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,22 @@ impl Html {
     }
 }
 
+/// Escape the characters that have a meaning in html texts and attributes.
+fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\'' => escaped.push_str("&#39;"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -47,14 +63,14 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
         let mut thead = table.thead();
         let mut tr = thead.tr();
         for column in columns {
-            tr.th().write_str(column)?;
+            tr.th().write_str(&escape(column))?;
         }
     }
     let mut tbody = table.tbody();
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +85,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +274,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +289,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +302,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +335,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +354,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +379,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From 3a8903fcb6e1ba615b169bd5c7d31762f91288c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:15 +0000
Subject: [PATCH 21/26] fix: report: render contexts longer than the line
 number

---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index af69780..68a2fde 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -363,7 +363,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From ca4e1648e38397cd780a1b1b4b7f522bcdd93e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:48 +0000
Subject: [PATCH 22/26] fix: cli: number the context lines from the line they
 are at

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..daf2968 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From cc78b203e9a90bff6eb23d48610fd1749b4f6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:51 +0000
Subject: [PATCH 23/26] fix: cli: a log that can't be opened does not hide the
 next ones

---
 cli/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index daf2968..8fdb683 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -338,10 +338,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                         }
                         total_line_count += processor.line_count;
                     }
-                    Err(err) => {
-                        println!("Could not read {}: {}", &source, err);
-                        break;
-                    }
+                    Err(err) => println!("Could not read {}: {}", &source, err),
                 }
             }
             None => {
-- 
2.43.0


From d5c8adf8cf2555223bbc963079ba2df7cbaaf014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:56 +0000
Subject: [PATCH 24/26] fix: model: verify the checksum of model and report
 files

---
 model/src/model.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 4c3094a..574879e 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -251,13 +251,19 @@ impl Report {
     }
 
     pub fn load(path: &Path) -> Result<Report> {
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open report file")?,
-        ))
-        .context("Can't load report")
+        let fp = std::fs::File::open(path).context("Can't open report file")?;
+        load_gz(fp).context("Can't load report")
     }
 }
 
+/// Decode a saved value.
+fn load_gz<T: serde::de::DeserializeOwned>(fp: std::fs::File) -> Result<T> {
+    // Read everything first, to not decode data whose checksum is wrong
+    let mut data = Vec::new();
+    std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(fp), &mut data)?;
+    Ok(bincode::deserialize(&data)?)
+}
+
 impl Index {
     #[tracing::instrument(level = "debug", name = "Index::train", skip(index))]
     pub fn train(sources: &[Source], mut index: ChunkIndex) -> Result<Index> {
@@ -433,10 +439,8 @@ impl Model {
 
     pub fn load(path: &Path) -> Result<Model> {
         tracing::info!(path = path.to_str(), "Loading provided model");
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open file")?,
-        ))
-        .context("Can't load model")
+        let fp = std::fs::File::open(path).context("Can't open file")?;
+        load_gz(fp).context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
-- 
2.43.0


From 2265de6fc64f1c1d56eb05433a66f3e649e150ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:49 +0000
Subject: [PATCH 25/26] fix: python: check what a capsule holds

---
 python/src/bindings.rs | 54 +++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/python/src/bindings.rs b/python/src/bindings.rs
index 554fa8a..967e15c 100644
--- a/python/src/bindings.rs
+++ b/python/src/bindings.rs
@@ -6,6 +6,7 @@
 //! This library provides python bindings for the [logreduce](https://github.com/logreduce/logreduce) project.
 
 use logreduce_index::F;
+use pyo3::exceptions::PyTypeError;
 use pyo3::prelude::*;
 use pyo3::types::PyCapsule;
 use std::ffi::CString;
@@ -25,6 +26,19 @@ fn generate(size: usize) -> String {
         .join("\n")
 }
 
+// The names of the Capsules, which tell what they hold.
+const INDEX: &str = "model";
+const INDEX_MAT: &str = "model_mat";
+
+/// Get the model of a Capsule.
+fn get_model<'a, T>(capsule: &'a PyCapsule, name: &str) -> PyResult<&'a T> {
+    if capsule.name().to_bytes() == name.as_bytes() {
+        Ok(unsafe { capsule.reference::<T>() })
+    } else {
+        Err(PyTypeError::new_err(format!("Not a {} capsule", name)))
+    }
+}
+
 /// The python module
 #[pymodule]
 fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
@@ -34,52 +48,44 @@ fn logreduce_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(INDEX).unwrap();
         let model = logreduce_index::index(&mut baselines.into_iter());
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> F {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<Vec<logreduce_index::Features>>()
-        };
-        logreduce_index::search(model, &target)
+    fn search(py: Python<'_>, pymodel: Py<PyCapsule>, target: String) -> PyResult<F> {
+        let model: &Vec<logreduce_index::Features> = get_model(pymodel.as_ref(py), INDEX)?;
+        Ok(logreduce_index::search(model, &target))
     }
 
     /// Return an opaque Capsule with the model
     #[pyfn(m)]
     fn index_mat(py: Python<'_>, baselines: Vec<String>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(INDEX_MAT).unwrap();
         let model = logreduce_index::index_mat(&baselines);
         PyCapsule::new(py, model, &name)
     }
 
     #[pyfn(m)]
-    fn search_mat(py: Python<'_>, pymodel: Py<PyCapsule>, targets: Vec<String>) -> Vec<F> {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<logreduce_index::FeaturesMatrix>()
-        };
-        logreduce_index::search_mat(model, &targets)
+    fn search_mat(
+        py: Python<'_>,
+        pymodel: Py<PyCapsule>,
+        targets: Vec<String>,
+    ) -> PyResult<Vec<F>> {
+        let model: &logreduce_index::FeaturesMatrix = get_model(pymodel.as_ref(py), INDEX_MAT)?;
+        Ok(logreduce_index::search_mat(model, &targets))
     }
 
     #[pyfn(m)]
-    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> Vec<u8> {
-        let model = unsafe {
-            pymodel
-                .as_ref(py)
-                .reference::<logreduce_index::FeaturesMatrix>()
-        };
-        logreduce_index::save_mat(model)
+    fn save_mat(py: Python<'_>, pymodel: Py<PyCapsule>) -> PyResult<Vec<u8>> {
+        let model: &logreduce_index::FeaturesMatrix = get_model(pymodel.as_ref(py), INDEX_MAT)?;
+        Ok(logreduce_index::save_mat(model))
     }
 
     #[pyfn(m)]
     fn load_mat(py: Python<'_>, buf: Vec<u8>) -> Result<&PyCapsule, PyErr> {
-        let name = CString::new("model").unwrap();
+        let name = CString::new(INDEX_MAT).unwrap();
         let model = logreduce_index::load_mat(&buf);
         PyCapsule::new(py, model, &name)
     }
-- 
2.43.0


From d5551f266980b153c7d8b7b1b644dc86be3bd6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:27 +0000
Subject: [PATCH 26/26] fix: httpdir: keep the credentials of the url in the
 listed ones

---
 httpdir/src/httpdir.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index c6ded8d..6a4f7b4 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -187,14 +187,14 @@ fn path_dir(url: &Url) -> Option<Url> {
 pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     // dbg!(&url);
     match client
-        .get(url)
+        .get(url.clone())
         .send()
         .and_then(|resp| resp.error_for_status())
     {
         Ok(resp) => {
-            let url = resp.url().clone();
+            let base_url = with_credentials(resp.url().clone(), &url);
             match resp.text() {
-                Ok(text) => parse_index_of(url, &text),
+                Ok(text) => parse_index_of(base_url, &text),
                 Err(e) => Err(mk_error(&format!("Response failed {}", e))),
             }
         }
@@ -202,6 +202,16 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
     }
 }
 
+// The url of a response doesn't have the credentials of its request, which its links need too.
+fn with_credentials(mut url: Url, request: &Url) -> Url {
+    if url.origin() == request.origin() {
+        // The setters only fail for the urls that can't have credentials.
+        let _ = url.set_username(request.username());
+        let _ = url.set_password(request.password());
+    }
+    url
+}
+
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-- 
2.43.0

