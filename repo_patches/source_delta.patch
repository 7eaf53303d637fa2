From c748d5145ec0d352f66daa7dd23744b11d5e81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 01/16] fix: track JSON string escapes character by character

A backslash escapes exactly the next character. The countdown started at \" treated strings such as
"\"" or "\\" as unterminated or ended, so whitespace in later strings was removed.
---
 src/json/json_minifier.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..e3c15dd 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -3,7 +3,7 @@
 #[derive(Debug, Clone)]
 pub struct JsonMinifier {
     pub is_string: bool,
-    pub escaped_quotation: u8,
+    pub is_escaped: bool,
 }
 
 impl Default for JsonMinifier {
@@ -16,35 +16,28 @@ impl JsonMinifier {
     pub fn new() -> Self {
         JsonMinifier {
             is_string: false,
-            escaped_quotation: 0,
+            is_escaped: false,
         }
     }
 }
 
 #[inline]
-pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
+    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
 #[inline]
-fn is_whitespace_outside_string(
-    minifier: &mut JsonMinifier,
-    item1: &char,
-    item2: Option<&char>,
-) -> bool {
-    if !minifier.is_string && item1.eq(&'"') {
-        minifier.is_string = true;
-    } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
-        if minifier.escaped_quotation > 0 {
-            minifier.escaped_quotation -= 1;
-        } else if item1.eq(&'"') {
-            minifier.is_string = false;
-        }
+fn is_whitespace_outside_string(minifier: &mut JsonMinifier, item1: &char) -> bool {
+    if !minifier.is_string {
+        minifier.is_string = item1.eq(&'"');
+    } else if minifier.is_escaped {
+        // Whatever follows a backslash, it neither ends the string nor escapes what comes next.
+        minifier.is_escaped = false;
+    } else if item1.eq(&'\\') {
+        minifier.is_escaped = true;
+    } else if item1.eq(&'"') {
+        minifier.is_string = false;
     }
     !minifier.is_string && item1.is_whitespace()
 }
-- 
2.43.0


From 07e57b011ffe5ae94622c4979228e8575f4cb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 02/16] fix: keep U+007F in JSON strings

JSON allows DEL inside strings; only U+0000 to U+001F cannot occur there.
---
 src/json/json_minifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index e3c15dd..1df1329 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,7 +23,7 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
-    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
+    let remove_element = *item1 < ' ' || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
-- 
2.43.0


From 0574d09d2780c13af94c5058bf53db1453996c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 03/16] fix: a short read is not the end of a JSON stream

Only a read of zero bytes is. A source that returned less than asked for was taken as finished.
---
 src/json/read/internal_buffer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..794b7e4 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,8 +6,8 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
+    eof: bool,
 }
 
 impl Buffer {
@@ -15,8 +15,8 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
+            eof: false,
         }
     }
 
@@ -27,6 +27,7 @@ impl Buffer {
     pub fn update_metadata(&mut self, size: usize) {
         self.read_pos = 0;
         self.data_size = size;
+        self.eof = size == 0;
     }
 
     pub fn next(&mut self) -> Option<u8> {
@@ -39,6 +40,6 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        !self.eof
     }
 }
-- 
2.43.0


From 52dd18922e6b24d4d50ad4f43118ff114380bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 04/16] fix: deliver the whole of a character that does not fit
 into the reader's buffer

The remaining bytes of a multi-byte character were overwritten by the next character.
---
 src/json/read/json_read.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..f987f49 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,15 +85,18 @@ where
             self.initialized = true;
         }
 
-        while let Some(item) = self.item1.take() {
+        // What did not fit into the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        while buf_pos < buf.len() {
+            let item = match self.item1.take() {
+                Some(item) => item,
+                None => break,
+            };
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
             }
-            if buf_pos >= buf.len() {
-                break;
-            }
         }
         Ok(buf_pos)
     }
-- 
2.43.0


From cdfbe551356e500ab46d1985db44be64c2aad71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 05/16] fix: report the errors of a JSON source as they are

Every failure of the source was turned into InvalidData, also Interrupted, which callers retry.
---
 src/json/read/json_read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index f987f49..7941aa7 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -103,7 +103,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From 4052d206e6ad57fe96f38a03447761298379e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 06/16] fix: lose no data when the source of a JSON stream
 fails

A failing first read made the next one panic; later failures dropped the pending character, the bytes
already placed into the caller's buffer and the part of a character read so far.
---
 src/json/read/byte_to_char.rs    | 68 ++++++++++++++++++--------------
 src/json/read/internal_reader.rs | 10 ++---
 src/json/read/json_read.rs       | 23 +++++++++--
 3 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..48cb269 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -9,14 +9,19 @@ use std::{
 
 pub struct ByteToChar<R> {
     iter: InternalReader<R>,
+    // The bytes already read of a character which isn't complete yet.
+    partial: [u8; 4],
+    partial_len: usize,
 }
 
 impl<R: Read> ByteToChar<R> {
     #[inline]
-    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
-        Ok(ByteToChar {
-            iter: InternalReader::new(read, buffer_size)?,
-        })
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        ByteToChar {
+            iter: InternalReader::new(read, buffer_size),
+            partial: [0; 4],
+            partial_len: 0,
+        }
     }
 
     fn get_next(&mut self) -> Result<Option<u8>, CharsError> {
@@ -40,34 +45,37 @@ impl<R: Read> Iterator for ByteToChar<R> {
     type Item = Result<char, CharsError>;
 
     fn next(&mut self) -> Option<Result<char, CharsError>> {
-        let first_byte = match self.get_next() {
-            Err(err) => return Some(Err(err)),
-            Ok(item) => item?,
-        };
-
-        let width = utf8_char_width(first_byte);
-        if width == 1 {
-            return Some(Ok(first_byte as char));
-        }
-        if width == 0 {
-            return Some(Err(CharsError::NotUtf8));
-        }
-        let mut buf = [first_byte, 0, 0, 0];
-        {
-            let mut start = 1;
-            while start < width {
-                let byte = match self.get_next() {
-                    Err(err) => return Some(Err(err)),
-                    Ok(item) => match item {
-                        Some(item) => item,
-                        None => return Some(Err(CharsError::NotUtf8)),
-                    },
-                };
-                buf[start] = byte;
-                start += 1;
+        // If the source failed inside a character, it is continued where it stopped.
+        if self.partial_len == 0 {
+            let first_byte = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => item?,
+            };
+            match utf8_char_width(first_byte) {
+                0 => return Some(Err(CharsError::NotUtf8)),
+                1 => return Some(Ok(first_byte as char)),
+                _ => {}
             }
+            self.partial[0] = first_byte;
+            self.partial_len = 1;
+        }
+        let width = utf8_char_width(self.partial[0]);
+        while self.partial_len < width {
+            let byte = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => match item {
+                    Some(item) => item,
+                    None => {
+                        self.partial_len = 0;
+                        return Some(Err(CharsError::NotUtf8));
+                    }
+                },
+            };
+            self.partial[self.partial_len] = byte;
+            self.partial_len += 1;
         }
-        Some(match from_utf8(&buf[..width]).ok() {
+        self.partial_len = 0;
+        Some(match from_utf8(&self.partial[..width]).ok() {
             Some(s) => Ok(s.chars().next().unwrap()),
             None => Err(CharsError::NotUtf8),
         })
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..09fa4bd 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -13,14 +13,12 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
-        Ok(InternalReader {
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        InternalReader {
             read,
             buffer_size,
-            buffer,
-        })
+            buffer: Buffer::new(buffer_size),
+        }
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 7941aa7..2d0cc77 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -18,6 +18,7 @@ pub struct JsonRead<P, R> {
     initialized: bool,
     item_iter: Option<IntoIter<u8>>,
     item1: Option<char>,
+    pending_error: Option<Error>,
 }
 
 impl<P, R: Read> JsonRead<P, R> {
@@ -31,6 +32,7 @@ impl<P, R: Read> JsonRead<P, R> {
             initialized: false,
             item_iter: None,
             item1: None,
+            pending_error: None,
         }
     }
 
@@ -79,8 +81,15 @@ where
             return Ok(0);
         }
 
+        // The previous call still had data to return when the source failed.
+        if let Some(err) = self.pending_error.take() {
+            return Err(err);
+        }
+
+        if let Some(read) = self.read.take() {
+            self.iter = Some(ByteToChar::new(read, buf.len()));
+        }
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
@@ -88,11 +97,19 @@ where
         // What did not fit into the previous buffer.
         self.add_char_to_buffer(buf, &mut buf_pos);
         while buf_pos < buf.len() {
-            let item = match self.item1.take() {
+            let item = match self.item1 {
                 Some(item) => item,
                 None => break,
             };
-            self.item1 = self.get_next()?;
+            // On failure, `item1` stays in place for the next call.
+            match self.get_next() {
+                Ok(next) => self.item1 = next,
+                Err(err) if buf_pos == 0 => return Err(err.into()),
+                Err(err) => {
+                    self.pending_error = Some(err.into());
+                    break;
+                }
+            }
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
-- 
2.43.0


From c6387b9a9830b0ab711c22e91c0b532c1c7ef2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 07/16] fix: stop writing a JS regex when its destination fails

The flags were still written after the body of the regex had failed to be.
---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..b2fa340 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -395,14 +395,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From d8d1058efdb7523212c50cccbf245119d768f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 08/16] fix: an extension which isn't UTF-8 is unknown, not a
 panic

---
 src/cli.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..36479c1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,10 +111,10 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
-            "css" => Self::Css,
-            "js" => Self::Js,
-            "json" => Self::Json,
+        match ext.unwrap().to_ascii_lowercase().to_str() {
+            Some("css") => Self::Css,
+            Some("js") => Self::Js,
+            Some("json") => Self::Json,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From 266b8f655678ed0318e461f29284bb348be346d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 09/16] fix: report an input that fails while being read
 instead of panicking

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 36479c1..ca5c688 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-- 
2.43.0


From 776bdea65afaabbd6ecfe5cd49c2030b5be7dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 10/16] fix: minify an input before its output is touched, and
 report failures

The output was truncated first, and an input that cannot be minified made the command panic and skip
the remaining inputs.
---
 src/cli.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ca5c688..37731b7 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,20 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            // Before anything happens to the output.
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
+            };
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!("{file_path:?}: minification failed: {e}");
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +177,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = file.write_all(minified.as_bytes()) {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From 8522647a2e7179cae95fe7f14b043c3451afee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 11/16] fix: report an output directory that cannot be created,
 and name the input in every failure

---
 src/cli.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 37731b7..067dae7 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -161,7 +161,10 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!("{file_path:?}: impossible to create the parent directory of {op:?}: {e}");
+                            return;
+                        }
                     };
                     op
                 }
@@ -178,12 +181,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .open(&out)
             {
                 if let Err(e) = file.write_all(minified.as_bytes()) {
-                    eprintln!("Impossible to write into {out:?}: {e}");
+                    eprintln!("{file_path:?}: impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
                 }
             } else {
-                eprintln!("Impossible to create new file: {out:?}");
+                eprintln!("{file_path:?}: impossible to create new file: {out:?}");
             }
         }
         Err(e) => eprintln!("{file_path:?}: {e}"),
-- 
2.43.0


From 4623567d61b6c2e5a540fc2eb8b66d0a08e4a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 12/16] fix: exit with a failure status when an input could not
 be minified

---
 src/cli.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 067dae7..5a4c7ef 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -50,8 +50,12 @@ type will detect via extension of input file.
             .collect::<Vec<_>>();
         let ext: Option<&FileType> = matches.get_one::<FileType>("FileType");
         let out: Option<&PathBuf> = matches.get_one::<PathBuf>("output");
+        let mut success = true;
         for path in args.into_iter() {
-            write_out_file(path, out, ext);
+            success &= write_out_file(path, out, ext);
+        }
+        if !success {
+            std::process::exit(1);
         }
     }
 }
@@ -127,7 +131,8 @@ pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     Ok(data)
 }
 
-fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&FileType>) {
+/// Returns whether the minified file was completely written.
+fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&FileType>) -> bool {
     let file_ext = if let Some(v) = ext {
         v
     } else {
@@ -135,7 +140,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     if file_ext == &FileType::Unknown {
         eprintln!("{file_path:?}: unknow file extension...");
-        return;
+        return false;
     };
     match get_all_data(file_path) {
         Ok(content) => {
@@ -150,7 +155,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 Ok(minified) => minified,
                 Err(e) => {
                     eprintln!("{file_path:?}: minification failed: {e}");
-                    return;
+                    return false;
                 }
             };
             let out = match out_path {
@@ -163,7 +168,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
                         if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
                             eprintln!("{file_path:?}: impossible to create the parent directory of {op:?}: {e}");
-                            return;
+                            return false;
                         }
                     };
                     op
@@ -184,11 +189,16 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                     eprintln!("{file_path:?}: impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
+                    return true;
                 }
             } else {
                 eprintln!("{file_path:?}: impossible to create new file: {out:?}");
             }
+            false
+        }
+        Err(e) => {
+            eprintln!("{file_path:?}: {e}");
+            false
         }
-        Err(e) => eprintln!("{file_path:?}: {e}"),
     }
 }
-- 
2.43.0


From 403ccdb70f200beeb9b4cc926dce144322df4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 13/16] fix: an unclosed JS comment may end in any character

Its end was computed in bytes from the start of its last character, which panicked if that character
takes several bytes.
---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index b2fa340..fc8b228 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -647,12 +647,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
+    // If the comment is unclosed, it goes on until the end of the source.
+    let mut end_pos = source.len();
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
+                end_pos = pos - 1;
                 break;
             }
             prev = c;
@@ -660,10 +660,8 @@ fn get_comment<'a>(
             prev = ReservedChar::Space;
         }
     }
-    // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..end_pos]);
+    *start_pos = end_pos + 1;
     ret
 }
 
-- 
2.43.0


From 11f5ef152a4e4526ca9374403c34e2f2b85db85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 14/16] fix: a JS line comment may end with the source

Without a newline after it, its text from the third byte on was taken for code, or made tokenize panic.
---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index fc8b228..8f8ec6b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The comment ends with the source.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 0735bf45face6464a597b8042849e2f18ca2f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 15/16] fix: come back to the same place after a / that doesn't
 start a JS regex

Characters peeked at while replaying the saved ones were delivered out of order or twice, which
made tokenize panic or mix up its positions.
---
 src/js/token.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8f8ec6b..4251009 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -846,50 +846,38 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
+    // The state to come back to.
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
             peeked: None,
-            is_saving: false,
+            saved: None,
         }
     }
 
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -902,16 +890,7 @@ impl Iterator for MyPeekable<'_> {
         if self.peeked.is_some() {
             self.peeked.take()
         } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
+            self.inner.next()
         }
     }
 }
-- 
2.43.0


From 0368290231da816676b2a622aa1190ff2844a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/16] fix: keep working when a report cannot be printed

---
 src/cli.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 5a4c7ef..c485c54 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -10,6 +10,20 @@ use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
 extern crate minifier;
 use minifier::{css, js, json};
 
+// The reports: unlike with the macros of the standard library, one that cannot be printed
+// (for instance because nobody reads it any more) doesn't stop the work.
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        let _ = writeln!(io::stdout(), $($arg)*);
+    }};
+}
+
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        let _ = writeln!(io::stderr(), $($arg)*);
+    }};
+}
+
 pub struct Cli;
 
 impl Cli {
-- 
2.43.0

