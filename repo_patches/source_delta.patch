From 577f56994c0f29d24009850523a040e5f9026805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 01/22] fix: hold back a CR at the end of the buffered data, it
 may start the boundary's CRLF

---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..742d726 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -211,6 +211,11 @@ fn find_boundary(buf: &[u8], boundary: &[u8]) -> Result<usize, usize> {
         }
     }
 
+    // a trailing CR may be the start of the CRLF preceding the boundary
+    if buf.ends_with(b"\r") {
+        return Err(buf.len() - 1);
+    }
+
     Err(buf.len())
 }
 
-- 
2.43.0


From 9c73b1b6fb12a1a741f3eca7fcf92a719139c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:08 +0000
Subject: [PATCH 02/22] fix: drop unread field data before verifying a
 boundary, so that what follows it can be buffered

---
 src/server/boundary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 742d726..fc661a9 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -131,6 +131,10 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard unread data before the boundary so that enough of what follows can be buffered
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From 753adcec4a9cb9b57a27ae245e653a8727c14cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 03/22] fix: make room before filling the buffer, a large
 minimum buffer size could end a field early

---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index fc661a9..fd60bdf 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -55,6 +55,11 @@ impl<R> BoundaryReader<R> where R: Read {
     }
 
     fn read_to_boundary(&mut self) -> io::Result<&[u8]> {
+        // `MinBuffered` alone doesn't read into a full buffer which can't fit the minimum after it
+        if self.source.buf_len() < self.source.policy().0 {
+            self.source.make_room();
+        }
+
         let buf = self.source.fill_buf()?;
 
         trace!("Buf: {:?}", String::from_utf8_lossy(buf));
-- 
2.43.0


From ee63750532e3e38747b0b6dee25dff8eac90801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 04/22] fix: accept or reject a field's headers by their size,
 not by how much of them is buffered

---
 src/server/field.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..2f0adb1 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -20,6 +20,9 @@ use self::ReadEntryResult::*;
 
 use super::save::SaveBuilder;
 
+/// The most that is buffered to find the end of a field's headers.
+const MAX_HEADERS_SIZE: usize = 8 * 1024;
+
 const EMPTY_STR_HEADER: StrHeader<'static> = StrHeader { name: "", val: "" };
 
 macro_rules! invalid_cont_disp {
@@ -435,8 +438,16 @@ pub trait PrivReadEntry {
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut())
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+        let mut res = FieldHeaders::read_from(self.source_mut());
+
+        // whether the headers are too large mustn't depend on how much happens to be buffered
+        if let Err(ParseHeaderError::TooLarge) = res {
+            self.set_min_buf_size(MAX_HEADERS_SIZE);
+            res = FieldHeaders::read_from(self.source_mut());
+            self.set_min_buf_size(super::boundary::MIN_BUF_SIZE);
+        }
+
+        res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
     }
 
     fn read_to_string(&mut self) -> io::Result<String> {
-- 
2.43.0


From 88107fcd0d6d3e257a686a2aaf431c0e4c8d715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 05/22] fix: parse Content-Disposition parameters one by one,
 honouring quotes

---
 src/server/field.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 2f0adb1..23c83c6 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -181,20 +181,18 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match get_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => trim_quotes(field_name),
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename =
+            get_param("filename", after_disp_type).map(|filename| trim_quotes(filename).to_owned());
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -355,20 +353,20 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the parameter `name` in `params`, where neither a `;` nor another parameter's
+/// name counts if it's inside quotes
+fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+    let is_lws = |c| c == ' ' || c == '\t';
+    let mut quoted = false;
+
+    params
+        .split(|c| {
+            quoted ^= c == '"';
+            c == ';' && !quoted
+        })
+        .filter_map(|param| param.find('=').map(|idx| param.split_at(idx)))
+        .find(|&(param_name, _)| param_name.trim_matches(&is_lws).eq_ignore_ascii_case(name))
+        .map(|(_, val)| val[1..].trim_matches(&is_lws))
 }
 
 fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-- 
2.43.0


From a1d064ba560d2acbfa15757c7c110c1ab34f80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 06/22] fix: count the text fields in the content length of a
 prepared request

---
 src/client/lazy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..61acbde 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -312,7 +312,7 @@ impl<'d> PreparedFields<'d> {
             boundary.push_str("--");
         }
 
-        content_len += boundary.len() as u64;
+        content_len += (text_data.len() + boundary.len()) as u64;
 
         Ok(PreparedFields {
             text_data: Cursor::new(text_data),
-- 
2.43.0


From 2116259e3f50d07ddfa1123d2f11978613548c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 07/22] fix: close the body of a prepared request without
 fields, sending one panicked

---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 61acbde..d0f6561 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += (text_data.len() + boundary.len()) as u64;
 
-- 
2.43.0


From 1b5fd6b714543c10b50dd575822e4db7d8400ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 08/22] fix: a failing stream made PreparedFields::read() drop
 what it had already read

---
 src/client/lazy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index d0f6561..62a6aad 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -342,7 +342,8 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
+        // don't go on after something was read: an error from the next stream would lose it
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
             let buf = &mut buf[total_read..];
 
             total_read += if !cursor_at_end(&self.text_data) {
-- 
2.43.0


From 9e35ab0151d7fd5c9416b0f81090473af22c85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 09/22] fix: don't open the stream of a request which refused
 the headers

---
 src/client/lazy.rs |  2 +-
 src/client/mod.rs  | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 62a6aad..6769be8 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,7 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        try_lazy!(super::apply_headers(&mut req, prepared.boundary(), prepared.content_len()));
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..f592ed4 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -215,10 +215,22 @@ fn open_stream<R: HttpRequest>(
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+    apply_headers(&mut req, &boundary, content_len)?;
     req.open_stream().map(|stream| (boundary, stream))
 }
 
+fn apply_headers<R: HttpRequest>(
+    req: &mut R,
+    boundary: &str,
+    content_len: Option<u64>,
+) -> Result<(), R::Error> {
+    if req.apply_headers(boundary, content_len) {
+        Ok(())
+    } else {
+        Err(io::Error::new(io::ErrorKind::Other, "failed to apply headers to request").into())
+    }
+}
+
 struct MultipartWriter<'a, W> {
     inner: W,
     boundary: Cow<'a, str>,
-- 
2.43.0


From b380807343dc735439a1327c4dc77f72124cde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 10/22] fix: with_filename() saved next to the temporary
 directory instead of inside it

---
 src/server/save.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..41867ec 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -367,10 +367,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
+        let path = env::temp_dir().join(filename);
 
-        self.with_path(tempdir)
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 6f4721e42f0d95e482814933291c1dd855490d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 11/22] fix: saving invalid UTF-8 as text looped or hit the
 size limit instead of failing to decode

---
 src/server/save.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 41867ec..5f626a6 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -457,8 +457,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
+                // the buffer is always big enough for one character, so it starts with an invalid one
+                Err(e) => if e.valid_up_to() == 0 {
                         Partial(0, e.into())
                     } else {
                         string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
@@ -971,11 +971,17 @@ fn create_dir_all(path: &Path) -> io::Result<()> {
 fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(src: R, mut with_buf: Wb, limit: u64) -> SaveResult<u64, u64> {
     let mut copied = 0u64;
     try_read_buf(src, |buf| {
-        let new_copied = copied.saturating_add(buf.len() as u64);
-        if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
+        if copied.saturating_add(buf.len() as u64) > limit { return Partial(0, PartialReason::SizeLimit) }
 
-        with_buf(buf)
+        let res = with_buf(buf);
+
+        // not necessarily all of `buf`
+        match res {
+            Full(amt) | Partial(amt, _) => copied = copied.saturating_add(amt as u64),
+            Error(_) => (),
+        }
+
+        res
     })
 }
 
-- 
2.43.0


From 35b95ae3e5290015edfd05e40e0d0c959589edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 12/22] fix: the size limit applied separately to memory and
 disk, and could touch the disk below the threshold

---
 src/server/save.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 5f626a6..f8b1212 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -394,7 +394,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let bytes = if self.text_policy != Ignore {
             let (text, reason) = try_partial!(self.save_text());
             match reason {
-                SizeLimit if !self.cmp_size_limit(text.len()) => text.into_bytes(),
+                SizeLimit if !self.memory_only() => text.into_bytes(),
                 Utf8Error(_) if self.text_policy != Force => text.into_bytes(),
                 other => return Partial(text.into(), other),
             }
@@ -405,7 +405,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let (bytes, reason) = try_partial!(self.save_mem(bytes));
 
         match reason {
-            SizeLimit if !self.cmp_size_limit(bytes.len()) => (),
+            SizeLimit if !self.memory_only() => (),
             other => return Partial(bytes.into(), other)
         }
 
@@ -421,7 +421,13 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // what was read to memory counts towards the limit
+        let limit = match self.size_limit {
+            u64::MAX => u64::MAX,
+            limit => limit.saturating_sub(data.size()),
+        };
+
+        self.write_to_limited(file, limit).map(move |written| data.add_size(written))
     }
 
 
@@ -431,9 +437,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
-        if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        let limit = self.size_limit;
+        self.write_to_limited(dest, limit)
+    }
+
+    fn write_to_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
+        if limit < u64::MAX {
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
@@ -480,8 +491,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         try_copy_limited(&mut self.savable, with_buf, limit)
     }
 
-    fn cmp_size_limit(&self, size: usize) -> bool {
-        size as u64 >= self.size_limit
+    /// Whether the size limit is hit before the disk would be touched.
+    fn memory_only(&self) -> bool {
+        self.size_limit <= self.memory_threshold
     }
 }
 
-- 
2.43.0


From 9aeeda5f48d42edaf51ca39db7c1a1e9d5d8cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 13/22] fix: with_path() lost the bytes it had read to memory
 when opening or writing the file failed

---
 src/server/save.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index f8b1212..a4e0c69 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -413,13 +404,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            Err(e) => return if bytes.is_empty() { Error(e) }
+                             else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        // these bytes were already consumed so they mustn't be lost if they can't be written
+        match try_write_all(&bytes, &mut file) {
+            Full(_) => (),
+            Partial(_, reason) => return Partial(bytes.into(), reason),
+            Error(e) => return Partial(bytes.into(), e.into()),
+        }
+
+        let data = SavedData::File(path, bytes.len() as u64);
 
         // what was read to memory counts towards the limit
         let limit = match self.size_limit {
@@ -427,7 +423,10 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
             limit => limit.saturating_sub(data.size()),
         };
 
-        self.write_to_limited(file, limit).map(move |written| data.add_size(written))
+        match self.write_to_limited(file, limit) {
+            Error(e) if data.size() > 0 => Partial(data, e.into()),
+            res => res.map(move |written| data.add_size(written)),
+        }
     }
 
 
-- 
2.43.0


From 1096a785e7cbdd8575f62464ae6561536002d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 14/22] fix: the count limit was reported for requests with
 exactly that many fields, and lost the next one

---
 src/server/save.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index a4e0c69..d4b8f8c 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -297,7 +297,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -310,14 +310,18 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
-            let (dest, reason) = match save_field(&mut field, &entries) {
-                Full(saved) => {
-                    entries.push_field(field.headers, saved);
-                    res = ReadEntry::read_entry(field.data.into_inner());
-                    continue;
-                },
-                Partial(saved, reason) => (Some(saved), reason),
-                Error(error) => (None, PartialReason::IoError(error)),
+            let (dest, reason) = if entries.fields_count >= count_limit {
+                (None, PartialReason::CountLimit)
+            } else {
+                match save_field(&mut field, &entries) {
+                    Full(saved) => {
+                        entries.push_field(field.headers, saved);
+                        res = ReadEntry::read_entry(field.data.into_inner());
+                        continue;
+                    },
+                    Partial(saved, reason) => (Some(saved), reason),
+                    Error(error) => (None, PartialReason::IoError(error)),
+                }
             };
 
             return Partial(
@@ -331,14 +335,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From eddbc8427567ae6d21538b4be431bcc87e61bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 15/22] fix: Intercept set to continue ignored no count limit
 but looped forever

---
 src/server/iron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..b01d92e 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -159,8 +159,9 @@ impl Intercept {
     }
 
     fn read_request_lenient(&self, mut multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>> {
+        // the count limit is to be ignored
         let mut entries = match multipart.save().size_limit(self.file_size_limit)
-                                                .count_limit(self.file_count_limit)
+                                                .count_limit(None)
                                                 .with_temp_dir(tempdir) {
             Full(entries) => return Ok(Some(entries)),
             Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
@@ -170,7 +171,7 @@ impl Intercept {
 
         loop {
             entries = match multipart.save().size_limit(self.file_size_limit)
-                                            .count_limit(self.file_count_limit)
+                                            .count_limit(None)
                                             .with_entries(entries) {
                 Full(entries) => return Ok(Some(entries)),
                 Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
-- 
2.43.0


From 3341d06994f39e05e79083e0100191c15c465337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 16/22] fix: a transport error while reading a field's headers
 made the next call skip the field

---
 src/server/boundary.rs | 13 +++++++++++++
 src/server/field.rs    | 32 ++++++++++++++++++++++++--------
 src/server/mod.rs      |  4 ++++
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index fd60bdf..7111f96 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -37,6 +37,7 @@ pub struct BoundaryReader<R> {
     boundary: Vec<u8>,
     search_idx: usize,
     state: State,
+    headers_unread: bool,
 }
 
 impl<R> BoundaryReader<R> where R: Read {
@@ -51,6 +52,7 @@ impl<R> BoundaryReader<R> where R: Read {
             boundary,
             search_idx: 0,
             state: Searching,
+            headers_unread: false,
         }
     }
 
@@ -116,11 +118,22 @@ impl<R> BoundaryReader<R> where R: Read {
         self.source.policy_mut().0 = min_buf_size;
     }
 
+    /// The headers after the last consumed boundary could not be read, so don't skip them
+    /// looking for the next boundary.
+    pub fn retry_headers(&mut self) {
+        self.headers_unread = true;
+    }
+
     pub fn consume_boundary(&mut self) -> io::Result<bool> {
         if self.state == AtEnd {
             return Ok(false);
         }
 
+        if self.headers_unread {
+            self.headers_unread = false;
+            return Ok(true);
+        }
+
         while self.state == Searching {
             debug!("Boundary not found yet");
 
diff --git a/src/server/field.rs b/src/server/field.rs
index 23c83c6..9bf7a36 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -81,7 +81,8 @@ where
             Status::Partial => last_len = buf.len(),
             Status::Complete((consume_, raw_headers)) => {
                 let mut headers = [EMPTY_STR_HEADER; HEADER_LEN];
-                let headers = copy_headers(raw_headers, &mut headers)?;
+                let headers = copy_headers(raw_headers, &mut headers)
+                    .map_err(ParseHeaderError::NotUtf8)?;
                 debug!("Parsed headers: {:?}", headers);
                 consume = consume_;
                 ret = closure(headers);
@@ -97,10 +98,10 @@ where
 fn copy_headers<'h, 'b: 'h>(
     raw: &[Header<'b>],
     headers: &'h mut [StrHeader<'b>],
-) -> io::Result<&'h [StrHeader<'b>]> {
+) -> Result<&'h [StrHeader<'b>], str::Utf8Error> {
     for (raw, header) in raw.iter().zip(&mut *headers) {
         header.name = raw.name;
-        header.val = io_str_utf8(raw.value)?;
+        header.val = str::from_utf8(raw.value)?;
     }
 
     Ok(&headers[..raw.len()])
@@ -369,10 +370,6 @@ fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
         .map(|(_, val)| val[1..].trim_matches(&is_lws))
 }
 
-fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-    str::from_utf8(buf).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-}
-
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
     // Field names are case insensitive and consist of ASCII characters
     // only (see https://tools.ietf.org/html/rfc822#section-3.2).
@@ -435,6 +432,9 @@ pub trait PrivReadEntry {
     /// Returns `true` if a field should follow, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
+    /// Have the next call to `consume_boundary()` do nothing so the headers can be read again.
+    fn retry_headers(&mut self);
+
     fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
         let mut res = FieldHeaders::read_from(self.source_mut());
 
@@ -445,7 +445,14 @@ pub trait PrivReadEntry {
             self.set_min_buf_size(super::boundary::MIN_BUF_SIZE);
         }
 
-        res.map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
+        res.map_err(|e| match e {
+            // there's nothing wrong with the headers, they just couldn't be read (yet)
+            ParseHeaderError::Io(e) => {
+                self.retry_headers();
+                e
+            }
+            e => io::Error::new(io::ErrorKind::InvalidData, e),
+        })
     }
 
     fn read_to_string(&mut self) -> io::Result<String> {
@@ -472,6 +479,10 @@ impl<'a, M: ReadEntry> PrivReadEntry for &'a mut M {
     fn consume_boundary(&mut self) -> io::Result<bool> {
         (**self).consume_boundary()
     }
+
+    fn retry_headers(&mut self) {
+        (**self).retry_headers()
+    }
 }
 
 /// Ternary result type returned by `ReadEntry::next_entry()`,
@@ -565,6 +576,11 @@ quick_error! {
             description("Failed to parse Content-Type")
             display(this) -> ("{}: {}", this.description(), cont_type)
         }
+        NotUtf8(err: str::Utf8Error) {
+            description("field headers are not valid UTF-8")
+            display(x) -> ("{}: {}", x.description(), err)
+            cause(err)
+        }
         TooLarge {
             description("field headers section ridiculously long or missing trailing CRLF-CRLF")
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 8cd01a0..7b04020 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -178,6 +178,10 @@ impl<R: Read> PrivReadEntry for Multipart<R> {
         debug!("Consume boundary!");
         self.reader.consume_boundary()
     }
+
+    fn retry_headers(&mut self) {
+        self.reader.retry_headers()
+    }
 }
 
 /// A server-side HTTP request that may or may not be multipart.
-- 
2.43.0


From 1f74a375621e4f5c5f8650945fd74c2566f9d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 17/22] fix: StdoutTee repeated bytes to the inner writer after
 a short write to stdout

---
 src/mock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..1bb52a1 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -192,8 +192,10 @@ impl<'s, W> StdoutTee<'s, W> {
 
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        let written = self.inner.write(buf)?;
+        // everything the inner writer took has to be reported, or the caller would write it again
+        self.stdout.write_all(&buf[..written])?;
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From c9961887d41d917376ad27742198086d7cfceb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 18/22] fix: hyper requests with the boundary "utf-8" weren't
 recognised as multipart

---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0


From 5e96911fb61ed422c265e10c1e9a2f7799358583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 19/22] fix: iron requests with other methods than POST were
 taken for multipart

---
 src/server/iron.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index b01d92e..31f3cbb 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -4,6 +4,7 @@
 //! iron::Request`.
 
 use iron::headers::ContentType;
+use iron::method::Method;
 use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
@@ -21,6 +22,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self.headers.get::<ContentType>());
         if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
             content_type.get_param("boundary").map(|b| b.as_str())
-- 
2.43.0


From 9d6ef43283dc5a7329d2294ec2d1a4a5b351f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 20/22] fix: nickel requests of other methods and media types
 were taken for multipart/form-data

---
 src/server/nickel.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..6be918d 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,8 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::method::Method;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -20,8 +22,16 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
 
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 868def478d990e322d97f8d455c7b79246d46981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 21/22] fix: Intercept didn't create temp_dir_path if it didn't
 exist

---
 src/server/iron.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 31f3cbb..e2cff7f 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -11,7 +11,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -133,7 +133,10 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| {
+                        fs::create_dir_all(path)?;
+                        tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    }
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From 16f03b7fd4ee88414ed2694c8f7adbf830dc7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 22/22] fix: tiny_http requests of any method or media type
 were taken for multipart, quotes were part of the boundary

---
 src/server/field.rs     |  4 ++--
 src/server/tiny_http.rs | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 9bf7a36..0108a08 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -350,13 +350,13 @@ fn split_once(s: &str, delim: char) -> Option<(&str, &str)> {
     s.find(delim).map(|idx| s.split_at(idx))
 }
 
-fn trim_quotes(s: &str) -> &str {
+pub(super) fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
 /// Get the value of the parameter `name` in `params`, where neither a `;` nor another parameter's
 /// name counts if it's inside quotes
-fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
+pub(super) fn get_param<'a>(name: &str, params: &'a str) -> Option<&'a str> {
     let is_lws = |c| c == ' ' || c == '\t';
     let mut quoted = false;
 
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..bd8e230 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,9 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
+use super::field::{get_param, trim_quotes};
 use super::HttpRequest;
 
 use std::io::Read;
@@ -14,7 +17,9 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
+        if *self.method() != Method::Post {
+            return None;
+        }
 
         let content_type = try_opt!(self
             .headers()
@@ -22,12 +27,13 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
+        let (mime, params) = content_type.split_at(try_opt!(content_type.find(';')));
+
+        if !mime.trim().eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
 
-        Some(&content_type[start..end])
+        get_param("boundary", &params[1..]).map(trim_quotes)
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0

