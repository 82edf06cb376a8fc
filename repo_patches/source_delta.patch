From 88e2da1bbc9640db20e4fd496a482a25d4bca4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:28 +0000
Subject: [PATCH 01/38] fix: only cache the bytes actually read while hashing
 the header

A reader that returns fewer bytes than requested made the header cache pick up
stale buffer contents, so the header checksum failed on a valid file.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From bba54fc5b675f8b665b64484ec3989f62beca4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:37 +0000
Subject: [PATCH 02/38] fix: stop returning CBC padding bytes as decrypted data

After the last block was unpadded, the reader still served the padding bytes on
the following calls. The decrypted XML of uncompressed archives ended in
padding bytes.
---
 src/stream/block_cipher.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..004be3d 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -52,6 +54,7 @@ where
 {
     fn buffer_next_block(&mut self) -> io::Result<usize> {
         self.buf_idx = 0;
+        self.buf_len = 0;
         let mut buffered_bytes = 0;
 
         if let Some(byte) = self.peek_byte {
@@ -107,10 +110,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
+        if remaining_in_buffer == 0 {
             remaining_in_buffer = self.buffer_next_block()?;
+            self.buf_len = remaining_in_buffer;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
-- 
2.43.0


From a63d802b9cc02ed82554c58b8a9e61228d08d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:52 +0000
Subject: [PATCH 03/38] fix: keep accepting data when a block is exactly full

Once the block buffer held exactly one full block, the next write reported that
zero bytes were accepted. Saving a database larger than one block failed.
---
 src/stream/hmac.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..cb64135 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,14 +121,13 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
-        let write_size = usize::min(buf.len(), space_in_buffer);
-        self.buffer.extend_from_slice(&buf[0..write_size]);
-        if write_size < buf.len() {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
             // Internal buffer full, write it out
             self.write_block()?;
-            self.buffer.clear();
         }
+        let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
+        let write_size = usize::min(buf.len(), space_in_buffer);
+        self.buffer.extend_from_slice(&buf[0..write_size]);
         Ok(write_size)
     }
 
-- 
2.43.0


From 97e9f5febcfcbcbf2322d0a4261a03ea36361436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:52 +0000
Subject: [PATCH 04/38] fix: do not end the block stream when flushing an empty
 buffer

Flushing with no pending data wrote an empty block, which readers take as the
end of the payload. Compressed archives saved with a block cipher could not be
opened again.
---
 src/stream/hmac.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index cb64135..d4ef984 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -132,7 +132,10 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
-        Ok(())
+        // An empty block marks the end of the data, so only write out pending data
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
+        self.inner.flush()
     }
 }
-- 
2.43.0


From 578810a254a50ba43f066747e10b283d47ae168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:52 +0000
Subject: [PATCH 05/38] fix: flush the output before reporting a successful
 save

A buffered writer could lose the tail of the archive, and any error doing so,
after the save had already returned success.
---
 src/binary/kdbx.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..2e9646f 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -162,6 +162,7 @@ impl KdbxState for Unlocked {
         output.write_all(&hmac.into_bytes())?;
         let encrypted_xml = self.encrypt_inner(master_key)?;
         output.write_all(&encrypted_xml)?;
+        output.flush()?;
         Ok(())
     }
 }
@@ -294,6 +295,7 @@ impl KdbxState for Locked {
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 3fbfb279d8fb0176423fa7adc9b6aa7a170a5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:59 +0000
Subject: [PATCH 06/38] fix: report an error when the XML ends before the
 database does

The XML reader keeps returning the end-of-document event, so a document without
the expected closing element made parsing loop forever.
---
 src/xml/parse.rs | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..8ee16c2 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -41,7 +41,22 @@ impl From<xml::reader::Error> for Error {
     }
 }
 
-fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<String>> {
+/// XML event source that treats the end of the document as an error
+///
+/// All parsing stops at the closing tag of the element being parsed, so
+/// reaching the end of the document means that tag is missing.
+struct XmlReader<R: Read>(EventReader<R>);
+
+impl<R: Read> XmlReader<R> {
+    fn next(&mut self) -> Result<XmlEvent> {
+        match self.0.next()? {
+            XmlEvent::EndDocument => Err(Error::Xml("Unexpected end of document".into())),
+            event => Ok(event),
+        }
+    }
+}
+
+fn parse_string<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<String>> {
     let mut content = None;
     loop {
         match xml_event_reader.next()? {
@@ -63,7 +78,7 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
 
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
-        fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
+        fn $name<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<$ty>> {
             parse_string(xml_event_reader)?
                 .map(|num| num.parse())
                 .transpose()
@@ -74,26 +89,26 @@ macro_rules! parse_numeric_type {
 
 parse_numeric_type!(parse_u32, u32);
 
-fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
+fn parse_uuid<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Uuid> {
     parse_string(xml_event_reader)?
         .and_then(|uuid| decode_uuid(&uuid))
         .ok_or(Error::InvalidUuid)
 }
 
-fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
+fn parse_datetime<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<NaiveDateTime> {
     parse_string(xml_event_reader)?
         .and_then(|dt| decode_datetime(&dt))
         .ok_or(Error::InvalidDatetime)
 }
 
-fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
+fn parse_bool<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<bool> {
     Ok(parse_string(xml_event_reader)?
         .map(|b| b.to_lowercase() == "true")
         .unwrap_or_default())
 }
 
 fn parse_field<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     tag_name: &str,
     stream_cipher: &mut S,
 ) -> Result<Field> {
@@ -146,7 +161,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_history<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<History> {
     let mut history = History::default();
@@ -162,7 +177,7 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times> {
+fn parse_times<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
@@ -191,7 +206,7 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
 }
 
 fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Entry> {
     let mut entry = Entry::default();
@@ -216,7 +231,7 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_group<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Group> {
     let mut group = Group::default();
@@ -243,7 +258,7 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_root<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Vec<Group>> {
     let mut groups = Vec::new();
@@ -260,7 +275,7 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Vec<Field>> {
     let mut fields = Vec::new();
@@ -277,7 +292,7 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_memory_protection<R: Read>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
@@ -308,7 +323,7 @@ fn parse_memory_protection<R: Read>(
 }
 
 fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Meta> {
     let mut meta = Meta::default();
@@ -340,7 +355,7 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
 }
 
 fn parse_file<R: Read, S: StreamCipher + ?Sized>(
-    xml_event_reader: &mut EventReader<R>,
+    xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let mut db = Database::default();
@@ -372,6 +387,6 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     let xml_config = xml::ParserConfig::new()
         .trim_whitespace(true)
         .cdata_to_characters(true);
-    let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
+    let mut xml_event_reader = XmlReader(EventReader::new_with_config(xml_data, xml_config));
     parse_file(&mut xml_event_reader, stream_cipher)
 }
-- 
2.43.0


From 0bb3b88bf29b7dfa1789503a5013c8b758b6d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:49 +0000
Subject: [PATCH 07/38] fix: keep white space in text read from the database
 XML

Leading and trailing white space of names, keys and values was dropped on
reading, so such passwords changed after saving and reopening. Identifiers,
times, numbers, flags and encrypted values still ignore it.
---
 src/xml/parse.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 8ee16c2..7bd6f5b 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -76,10 +76,16 @@ fn parse_string<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<S
     Ok(content)
 }
 
+fn parse_trimmed<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<String>> {
+    Ok(parse_string(xml_event_reader)?
+        .map(|s| s.trim().to_string())
+        .filter(|s| !s.is_empty()))
+}
+
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<$ty>> {
-            parse_string(xml_event_reader)?
+            parse_trimmed(xml_event_reader)?
                 .map(|num| num.parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -90,19 +96,19 @@ macro_rules! parse_numeric_type {
 parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Uuid> {
-    parse_string(xml_event_reader)?
+    parse_trimmed(xml_event_reader)?
         .and_then(|uuid| decode_uuid(&uuid))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<NaiveDateTime> {
-    parse_string(xml_event_reader)?
+    parse_trimmed(xml_event_reader)?
         .and_then(|dt| decode_datetime(&dt))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<bool> {
-    Ok(parse_string(xml_event_reader)?
+    Ok(parse_trimmed(xml_event_reader)?
         .map(|b| b.to_lowercase() == "true")
         .unwrap_or_default())
 }
@@ -130,7 +136,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD
+                            .decode(contents.split_whitespace().collect::<String>())
+                        {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -385,7 +393,8 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .trim_whitespace(false)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = XmlReader(EventReader::new_with_config(xml_data, xml_config));
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From 6e53a949102e178c5881fd11d27d7e1dd8ca9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:17 +0000
Subject: [PATCH 08/38] fix: skip unsupported XML elements as a whole

Children of unsupported elements were read as if they belonged to the enclosing
group or entry. Protected values inside them did not use up their part of the
key stream, so every protected value after them was decrypted wrongly.
---
 src/xml/parse.rs | 144 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 108 insertions(+), 36 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 7bd6f5b..44d56a6 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -8,6 +8,7 @@ use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -76,6 +77,59 @@ fn parse_string<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<S
     Ok(content)
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Decrypt the contents of a protected element
+fn decrypt<S: StreamCipher + ?Sized>(
+    contents: &str,
+    name: &str,
+    stream_cipher: &mut S,
+) -> Result<Vec<u8>> {
+    let mut decoded = BASE64_STANDARD
+        .decode(contents.split_whitespace().collect::<String>())
+        .map_err(|_| Error::DecryptFailed(name.to_string()))?;
+    stream_cipher
+        .try_apply_keystream(decoded.as_mut())
+        .map_err(|e| Error::DecryptFailed(format!("Failed to apply stream cipher: {}", e)))?;
+    Ok(decoded)
+}
+
+/// Skip to the end of an element not supported by this library
+///
+/// Protected values within it still use up their part of the key stream.
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut XmlReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut open_elements = 1;
+    let mut protected = is_protected(attributes);
+    let mut contents = String::new();
+    while open_elements > 0 {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                open_elements += 1;
+                protected = is_protected(&attributes);
+                contents.clear();
+            }
+            XmlEvent::Characters(chardata) if protected => contents.push_str(&chardata),
+            XmlEvent::EndElement { name } => {
+                if protected {
+                    decrypt(&contents, &name.local_name, stream_cipher)?;
+                    protected = false;
+                }
+                open_elements -= 1;
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn parse_trimmed<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Option<String>> {
     Ok(parse_string(xml_event_reader)?
         .map(|s| s.trim().to_string())
@@ -129,31 +183,12 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
-                    if protected {
-                        // Would be nice to avoid the clone but it gets moved into the map_err closure
-                        let key_clone = field.key.clone();
-                        match BASE64_STANDARD
-                            .decode(contents.split_whitespace().collect::<String>())
-                        {
-                            Ok(mut decoded) => {
-                                stream_cipher
-                                    .try_apply_keystream(decoded.as_mut())
-                                    .map_err(|e| {
-                                        Error::DecryptFailed(format!(
-                                            "Failed to apply stream cipher: {}",
-                                            e
-                                        ))
-                                    })?;
-                                let to_str = String::from_utf8(decoded)
-                                    .map_err(|_| Error::DecryptFailed(key_clone))?;
-                                Value::Protected(to_str)
-                            }
-                            Err(_) => return Err(Error::DecryptFailed(key_clone)),
-                        }
+                    if is_protected(&attributes) {
+                        let decrypted = decrypt(&contents, &field.key, stream_cipher)?;
+                        let to_str = String::from_utf8(decrypted)
+                            .map_err(|_| Error::DecryptFailed(field.key.clone()))?;
+                        Value::Protected(to_str)
                     } else {
                         Value::Standard(contents)
                     }
@@ -161,6 +196,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -178,6 +216,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -185,11 +226,16 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Times> {
+fn parse_times<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut XmlReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -204,6 +250,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut XmlReader<R>) -> Result<Times> {
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -220,7 +268,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -228,7 +278,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "UUID" {
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
-                    entry.times = parse_times(xml_event_reader)?;
+                    entry.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -245,7 +297,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -255,7 +309,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Name" {
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
-                    group.times = parse_times(xml_event_reader)?;
+                    group.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -275,6 +331,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -292,6 +351,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -299,13 +361,16 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
     Ok(fields)
 }
 
-fn parse_memory_protection<R: Read>(
+fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
+    stream_cipher: &mut S,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -321,7 +386,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -337,7 +402,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -351,9 +418,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
                 }
                 "MemoryProtection" => {
-                    meta.memory_protection = parse_memory_protection(xml_event_reader)?;
+                    meta.memory_protection =
+                        parse_memory_protection(xml_event_reader, stream_cipher)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -375,6 +443,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             _ => {}
         }
-- 
2.43.0


From 1e918a2dbd01e9ed70c07e93c6afc80e6ada6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 09/38] fix: limit how deeply groups and entries may nest

Reading a document with a few thousand nested groups overflowed the stack and
aborted the process. Such documents are now refused, and the same limit applies
when writing so that everything written can be read back.
---
 src/xml.rs           |  3 +++
 src/xml/parse.rs     | 23 ++++++++++++++++++-----
 src/xml/serialize.rs | 20 ++++++++++++++++----
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 357a44a..24c8188 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -4,6 +4,9 @@ mod decoders;
 pub(crate) mod parse;
 pub(crate) mod serialize;
 
+/// Limit on how deeply groups and historical entries can be nested within each other
+pub(crate) const MAX_NESTING_DEPTH: usize = 256;
+
 pub use crate::stream::random::InnerStreamError;
 pub use decoders::{decode_datetime, decode_uuid, encode_datetime, encode_uuid};
 pub use parse::parse_xml;
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 44d56a6..053ef2f 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -1,4 +1,5 @@
 use super::decoders::{decode_datetime, decode_uuid};
+use super::MAX_NESTING_DEPTH;
 use crate::database::{
     Database, Entry, Field, Group, History, MemoryProtection, Meta, Times, Value,
 };
@@ -32,6 +33,9 @@ pub enum Error {
     /// A string field did not decrypt correctly
     #[error("Could not decrypt value for Key {0:?}")]
     DecryptFailed(String),
+    /// Groups or entries are nested deeper than this library supports
+    #[error("Groups or entries are nested too deeply")]
+    NestingTooDeep,
 }
 
 pub type Result<T> = std::result::Result<T, Error>;
@@ -209,12 +213,13 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
 fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<History> {
     let mut history = History::default();
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
-                history.push(parse_entry(xml_event_reader, stream_cipher)?);
+                history.push(parse_entry(xml_event_reader, stream_cipher, depth + 1)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?
@@ -264,7 +269,11 @@ fn parse_times<R: Read, S: StreamCipher + ?Sized>(
 fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<Entry> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Error::NestingTooDeep);
+    }
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
@@ -272,7 +281,7 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "History" {
-                    entry.history = parse_history(xml_event_reader, stream_cipher)?;
+                    entry.history = parse_history(xml_event_reader, stream_cipher, depth)?;
                 } else if &name.local_name == "String" {
                     entry.add_field(parse_field(xml_event_reader, "String", stream_cipher)?);
                 } else if &name.local_name == "UUID" {
@@ -293,7 +302,11 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
 fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<Group> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Error::NestingTooDeep);
+    }
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
@@ -301,9 +314,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "Group" {
-                    group.add_group(parse_group(xml_event_reader, stream_cipher)?);
+                    group.add_group(parse_group(xml_event_reader, stream_cipher, depth + 1)?);
                 } else if &name.local_name == "Entry" {
-                    group.add_entry(parse_entry(xml_event_reader, stream_cipher)?);
+                    group.add_entry(parse_entry(xml_event_reader, stream_cipher, depth + 1)?);
                 } else if &name.local_name == "UUID" {
                     group.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Name" {
@@ -329,7 +342,7 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
-                groups.push(parse_group(xml_event_reader, stream_cipher)?);
+                groups.push(parse_group(xml_event_reader, stream_cipher, 0)?);
             }
             XmlEvent::StartElement { attributes, .. } => {
                 skip_element(xml_event_reader, &attributes, stream_cipher)?
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..9eb0d14 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -1,4 +1,5 @@
 use super::decoders::{encode_datetime, encode_uuid};
+use super::MAX_NESTING_DEPTH;
 use crate::database::{Database, Entry, Field, Group, MemoryProtection, Meta, Times, Value};
 use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
@@ -16,6 +17,9 @@ pub enum Error {
     /// Failure of stream cipher when encrypting a value
     #[error("Error encountered encrypting with a stream cipher: {0}")]
     Cipher(String),
+    /// Groups or entries are nested deeper than this library supports
+    #[error("Groups or entries are nested too deeply")]
+    NestingTooDeep,
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -129,7 +133,11 @@ fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     entry: &Entry,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<()> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Error::NestingTooDeep);
+    }
     writer.write(XmlEvent::start_element("Entry"))?;
     write_string_tag(writer, "UUID", &encode_uuid(entry.uuid()))?;
     write_times(writer, &entry.times)?;
@@ -139,7 +147,7 @@ fn write_entry<W: Write, S: StreamCipher + ?Sized>(
     if !entry.history.is_empty() {
         writer.write(XmlEvent::start_element("History"))?;
         for old_entry in entry.history.entries() {
-            write_entry(writer, old_entry, stream_cipher)?;
+            write_entry(writer, old_entry, stream_cipher, depth + 1)?;
         }
         writer.write(XmlEvent::end_element())?;
     }
@@ -151,16 +159,20 @@ fn write_group<W: Write, S: StreamCipher + ?Sized>(
     writer: &mut XmlWriter<W>,
     group: &Group,
     stream_cipher: &mut S,
+    depth: usize,
 ) -> Result<()> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Error::NestingTooDeep);
+    }
     writer.write(XmlEvent::start_element("Group"))?;
     write_string_tag(writer, "UUID", encode_uuid(group.uuid()))?;
     write_string_tag(writer, "Name", group.name())?;
     write_times(writer, &group.times)?;
     for entry in group.entries() {
-        write_entry(writer, entry, stream_cipher)?;
+        write_entry(writer, entry, stream_cipher, depth + 1)?;
     }
     for group in group.groups() {
-        write_group(writer, group, stream_cipher)?;
+        write_group(writer, group, stream_cipher, depth + 1)?;
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
@@ -185,7 +197,7 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     write_meta(&mut writer, &database.meta, stream_cipher)?;
     writer.write(XmlEvent::start_element("Root"))?;
     for group in &database.groups {
-        write_group(&mut writer, group, stream_cipher)?;
+        write_group(&mut writer, group, stream_cipher, 0)?;
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From 38ad32bcde749462df975fb4503975974983b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:37 +0000
Subject: [PATCH 10/38] fix: keep the protection of a field while it is empty

A protected field reported itself as unprotected once cleared, so the next value
set on it was stored unprotected. An empty protected field also lost its
protection when saved.
---
 src/database.rs      | 2 +-
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..587d623 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 053ef2f..ce51a10 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -196,6 +196,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if is_protected(&attributes) {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 9eb0d14..be50a92 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -62,10 +62,14 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
     }
     writer.write(XmlEvent::end_element())?;
     Ok(())
-- 
2.43.0


From 30a99bada5bfb285fb75bfa387bd23a44fb38d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:51 +0000
Subject: [PATCH 11/38] fix: keep protection when setting a title, user name or
 URL

Setting one of these on an entry whose field was protected silently turned the
field into an unprotected one.
---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 587d623..5c66f04 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From c8dfaa8fa8c2f66f84a867013c0a4e8fdd0c279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:51 +0000
Subject: [PATCH 12/38] fix: read the period and padded secret of one-time
 passwords

The period was looked up under the name of the secret, so it was never found.
A secret with base32 padding was cut off at the first padding character.
---
 src/database.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 5c66f04..7788981 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -892,7 +892,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From c6e679bed0fe508b67fd8af9f2525a51070e5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:51 +0000
Subject: [PATCH 13/38] fix: keep a root group when the XML contains none

A document without any group produced a database on which every access to the
root group panicked.
---
 src/xml/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index ce51a10..1af1f6c 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -453,7 +453,11 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                // Databases always have a root group, keep the default one if none is given
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From e86fab6c80068068e7842ae64247f742b4981e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:51 +0000
Subject: [PATCH 14/38] fix: reject times that are out of range instead of
 panicking

---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 41707b40672a9a7c6729d7c7fdb2596aadb39560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:45 +0000
Subject: [PATCH 15/38] fix: refuse to write text that XML can not represent

Control characters in names, keys or unprotected values were written as they
are. Saving succeeded but the resulting file could not be opened again.
---
 src/xml/serialize.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index be50a92..75fd339 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -5,6 +5,7 @@ use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
+use xml::common::is_xml10_char;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -20,6 +21,9 @@ pub enum Error {
     /// Groups or entries are nested deeper than this library supports
     #[error("Groups or entries are nested too deeply")]
     NestingTooDeep,
+    /// Some text contains a character that can not be stored in an XML file
+    #[error("Character {0:?} can not be stored in XML")]
+    InvalidCharacter(char),
 }
 
 type Result<T> = std::result::Result<T, Error>;
@@ -36,6 +40,9 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     name: &str,
     value: S,
 ) -> Result<()> {
+    if let Some(c) = value.as_ref().chars().find(|c| !is_xml10_char(*c)) {
+        return Err(Error::InvalidCharacter(c));
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From 0ed94333585704812cc9c5323bac622cf796a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:45 +0000
Subject: [PATCH 16/38] fix: refuse to write fields without a name

Reading rejects fields with an empty name, so a file saved with one could not be
opened again.
---
 src/xml/serialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 75fd339..9e22872 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -21,6 +21,9 @@ pub enum Error {
     /// Groups or entries are nested deeper than this library supports
     #[error("Groups or entries are nested too deeply")]
     NestingTooDeep,
+    /// A field has an empty name
+    #[error("A field has an empty name")]
+    KeyEmptyName,
     /// Some text contains a character that can not be stored in an XML file
     #[error("Character {0:?} can not be stored in XML")]
     InvalidCharacter(char),
@@ -55,6 +58,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(Error::KeyEmptyName);
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From 0cfb32b9271a4449e82258efab507b2d2a226532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:21 +0000
Subject: [PATCH 17/38] fix: flush XML output before reporting success

A buffered writer could lose the end of the document, and any error doing so,
after the write had already returned success.
---
 src/xml/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 9e22872..d2c797a 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -218,5 +218,9 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     }
     writer.write(XmlEvent::end_element())?;
     writer.write(XmlEvent::end_element())?;
+    writer
+        .into_inner()
+        .flush()
+        .map_err(xml::writer::Error::Io)?;
     Ok(())
 }
-- 
2.43.0


From e0c1911587bd8713117947e5c6ac5fae2ae0a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:31 +0000
Subject: [PATCH 18/38] fix: refuse unknown key derivation functions

An unknown function produced an empty master key. Such archives unlocked with
any password, and could be saved with no effective protection.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..f8d6452 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -107,7 +107,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From c5687822df1033f3afa83d01fc0d45b34427ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:31 +0000
Subject: [PATCH 19/38] fix: report an AES key derivation salt of the wrong
 size

The salt length comes from the file, so a malformed file caused a panic.
---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f8d6452..f81460e 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -90,7 +90,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From 81d5e343347af43645f6455f537d42959721d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:21 +0000
Subject: [PATCH 20/38] fix: refuse Argon2 settings that can not be honoured

Memory and iteration counts above 32 bits were cut off, giving a far weaker key
than the header announces. The Argon2i variant has no KDBX identifier and made
saving panic.
---
 src/crypto.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f81460e..4780097 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -74,13 +74,19 @@ impl ComposedKey {
                 lanes,
                 salt,
             } => {
+                let unsupported =
+                    || KeyGenerationError::UnimplementedKdfOptions(kdf_options.clone());
+                if *variant == argon2::Variant::Argon2i {
+                    // KDBX has no identifier for this variant
+                    return Err(unsupported());
+                }
                 let config = argon2::Config {
                     variant: *variant,
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024).map_err(|_| unsupported())?,
+                    time_cost: u32::try_from(*iterations).map_err(|_| unsupported())?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From 693cf429610a3467bf0df9c0411ba41228c00655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:21 +0000
Subject: [PATCH 21/38] fix: report a ChaCha20 IV of the wrong size

The IV comes from the file or from the caller's settings, so a wrong size caused
a panic when unlocking or saving.
---
 src/stream/pipeline.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..f588b96 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -34,6 +34,15 @@ where
     })
 }
 
+fn chacha20_cipher(key: &crypto::CipherKey, iv: &[u8]) -> io::Result<ChaCha20> {
+    ChaCha20::new_from_slices(&key.0, iv).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid cipher params - Could not create ChaCha20 cipher".to_string(),
+        )
+    })
+}
+
 pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
     inner: R,
     cipher_key: crypto::CipherKey,
@@ -51,7 +60,7 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +252,7 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = chacha20_cipher(&cipher_key, iv)?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From acb0b3a397c7835c3be0a794450201991727a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 22/38] fix: refuse to save archives in the read-only KDBX 3
 format

Saving an archive opened from a KDBX 3 file reported success but wrote a mixture
of both formats that could not be opened.
---
 src/binary/errors.rs | 3 +++
 src/binary/kdbx.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index fb9cef6..764dcc1 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -91,4 +91,7 @@ pub enum WriteError {
     /// The inner stream is invalid
     #[error("Cannot create inner stream to write protected values - {0}")]
     InnerStream(#[from] InnerStreamError),
+    /// Writing is not supported for this version of the kdbx format
+    #[error("Writing kdbx version {0} is not supported")]
+    UnsupportedVersion(u16),
 }
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 2e9646f..8b329df 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -141,6 +141,9 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::UnsupportedVersion(self.major_version));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From 0f38e11185bda7589378903c4a5a7fdc35fd6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:41 +0000
Subject: [PATCH 23/38] fix: write locked archives unchanged

The header was written again from its parsed form, in another order. The header
no longer matched its authentication code, so the copy could not be unlocked.
---
 src/binary/kdbx.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 8b329df..4ddb97f 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -285,16 +285,11 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        // Header data is covered by the hmac, which can not be
+        // recalculated without the key, so it must be kept as is
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
-- 
2.43.0


From bb13673d727f05eef269d0926905df5df1f79f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:56 +0000
Subject: [PATCH 24/38] fix: keep the previous key when setting a new one fails

A failed attempt replaced only one of the two stored keys, leaving the archive
with a mixture of the old and the new key.
---
 src/binary/kdbx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 4ddb97f..936af19 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -186,9 +186,9 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
+        let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        self.state.composed_key = Some(composed_key);
 
         Ok(())
     }
-- 
2.43.0


From 0e1599fed55bff70bd69b267aa6c6c54d6d54cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:28 +0000
Subject: [PATCH 25/38] fix: derive a new key when key derivation settings
 changed

Changing the settings after the key was set, or after unlocking, saved a file
whose header did not match the key it was encrypted with. The file could not be
opened with any password.
---
 src/binary/errors.rs |  3 +++
 src/binary/kdbx.rs   | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 764dcc1..b2edfe9 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -94,4 +94,7 @@ pub enum WriteError {
     /// Writing is not supported for this version of the kdbx format
     #[error("Writing kdbx version {0} is not supported")]
     UnsupportedVersion(u16),
+    /// The KDF options were changed to ones that keys can not be generated with
+    #[error("Key generation failed - {0}")]
+    KeyGen(#[from] crypto::KeyGenerationError),
 }
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 936af19..749753b 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -1,4 +1,4 @@
-use super::{errors, header};
+use super::{errors, header, header_fields};
 use crate::{crypto, database, stream};
 use std::io::{Read, Write};
 use std::ops::{Deref, DerefMut};
@@ -90,6 +90,8 @@ pub struct Unlocked {
     pub(crate) composed_key: Option<crypto::ComposedKey>,
     /// Master key used to derive other keys
     pub(crate) master_key: Option<crypto::MasterKey>,
+    /// KDF options the master key was generated with
+    pub(crate) master_key_params: Option<header_fields::KdfParams>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -144,10 +146,20 @@ impl KdbxState for Unlocked {
         if self.major_version < 4 {
             return Err(errors::WriteError::UnsupportedVersion(self.major_version));
         }
-        let master_key = self
+        let mut master_key = self
             .master_key
             .as_ref()
             .ok_or(errors::WriteError::MissingKeys)?;
+        let new_master_key;
+        if self.master_key_params.as_ref() != Some(&self.header.kdf_params) {
+            // KDF options were changed since the key was set
+            new_master_key = self
+                .composed_key
+                .as_ref()
+                .ok_or(errors::WriteError::MissingKeys)?
+                .master_key(&self.header.kdf_params)?;
+            master_key = &new_master_key;
+        }
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
@@ -189,6 +201,7 @@ impl Kdbx<Unlocked> {
         let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
         self.state.composed_key = Some(composed_key);
+        self.state.master_key_params = Some(self.header().kdf_params.clone());
 
         Ok(())
     }
@@ -230,6 +243,7 @@ impl Kdbx<Unlocked> {
             xml_data: None,
             composed_key: None,
             master_key: None,
+            master_key_params: None,
             database,
         };
         Kdbx { state: unlocked }
@@ -372,6 +386,7 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key_params: Some(self.state.header.kdf_params.clone()),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
@@ -412,6 +427,7 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key_params: Some(self.state.header.kdf_params.clone()),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
-- 
2.43.0


From a23a42893edea812b6d6ccda34067eeab57af3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:26 +0000
Subject: [PATCH 26/38] fix: report missing and wrongly sized header fields

A legacy round count, an inner stream identifier of the wrong size or missing
start bytes made opening or unlocking a malformed file panic.
---
 src/binary/errors.rs |  3 +++
 src/binary/header.rs | 39 ++++++++++++++++++++++++---------------
 src/binary/kdbx.rs   |  5 ++++-
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index b2edfe9..06fd4f2 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -59,6 +59,9 @@ pub enum HeaderError {
     /// A supported field had an unexpected format
     #[error("Incompatible database - Malformed field of type {0:?}: {1}")]
     MalformedField(header::OuterHeaderId, String),
+    /// A supported field in the encrypted header had an unexpected format
+    #[error("Incompatible database - Malformed inner field of type {0:?}: {1}")]
+    MalformedInnerField(header::InnerHeaderId, String),
     /// A required field is missing in the unencrypted header
     #[error("Incompatible database - Missing required field of type {0:?}")]
     MissingRequiredField(header::OuterHeaderId),
diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..b427441 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -266,34 +266,36 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
                 .map(|h| {
-                    let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                    h.data.as_slice().try_into().map_err(|_| {
+                        Error::MalformedField(h.ty, "Wrong size for transform rounds".into())
+                    })
+                })
+                .transpose()?
+                .map(u64::from_le_bytes);
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
@@ -445,9 +447,13 @@ impl KdbxInnerHeaderBuilder {
     fn add_header(&mut self, header: HeaderField<InnerHeaderId>) -> Result<()> {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
-                let d = header.data;
-                self.inner_stream_cipher =
-                    Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
+                let id = header.data.as_slice().try_into().map_err(|_| {
+                    Error::MalformedInnerField(
+                        header.ty,
+                        "Wrong size for inner stream cipher ID".into(),
+                    )
+                })?;
+                self.inner_stream_cipher = Some(u32::from_le_bytes(id).into());
             }
             InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),
             _ => self.other_headers.push(header),
@@ -501,9 +507,12 @@ impl KdbxInnerHeader {
             ))?
             .data
             .clone();
-        let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
-        let cipher_id = u32::from_le_bytes(cipher_id_buf);
+        let cipher_id = u32::from_le_bytes(cipher.as_slice().try_into().map_err(|_| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Wrong size for inner stream cipher ID".into(),
+            )
+        })?);
 
         Ok(KdbxInnerHeader {
             inner_stream_cipher: cipher_id.into(),
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 749753b..0629948 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -351,13 +351,16 @@ impl Kdbx<Locked> {
         master_key: &crypto::MasterKey,
     ) -> Result<(header::KdbxInnerHeader, Vec<u8>), errors::UnlockError> {
         let cipher_key = master_key.cipher_key(&self.state.header.master_seed);
+        let stream_start_bytes = self.header().stream_start_bytes.as_ref().ok_or(
+            errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+        )?;
         let mut input_stream = stream::kdbx3_read_stream(
             &*self.state.encrypted_data,
             cipher_key,
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            stream_start_bytes,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 2dc36dd92ba98bc9d4825e7b23698ee60705f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:16 +0000
Subject: [PATCH 27/38] fix: do not trust length fields when allocating memory

A few bytes of input could request allocations of up to 4 GiB, and a negative
length in a variant dictionary caused a panic. Buffers now grow with the data
that is actually present.
---
 src/binary/header.rs       |  3 +--
 src/binary/variant_dict.rs | 12 +++++-------
 src/stream/hmac.rs         |  4 ++--
 src/stream/kdbx3.rs        |  4 ++--
 src/utils.rs               | 15 ++++++++++++++-
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index b427441..c8c6f97 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_buffer(self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..d8f5eb1 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_buffer;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -150,15 +150,13 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
     let mut length_buffer = [0u8; 4];
 
     input.read_exact(&mut length_buffer)?;
-    let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_length = u32::from_le_bytes(length_buffer);
+    let key_buffer = read_buffer(input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
-    let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_length = u32::from_le_bytes(length_buffer);
+    let value_buffer = read_buffer(input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index d4ef984..a691ef3 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils::read_buffer;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,8 +32,7 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = read_buffer(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..946e254 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils::read_buffer;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -30,8 +31,7 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        self.buffer = read_buffer(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len)
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..bdd787c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,19 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly the given number of bytes
+///
+/// Memory is only allocated as data arrives, so lengths from
+/// untrusted sources can not cause large allocations
+pub(crate) fn read_buffer<R: io::Read>(reader: &mut R, len: usize) -> io::Result<Vec<u8>> {
+    let mut v = Vec::new();
+    reader.take(len as u64).read_to_end(&mut v)?;
+    if v.len() < len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(v)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From 9acfb41f76c39609bc530124c8d91c75675e69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:14 +0000
Subject: [PATCH 28/38] fix: accept the final block of uncompressed KDBX 3
 archives

The empty block ending the data carries no hash. Its hash was checked all the
same, so uncompressed archives could not be unlocked.
---
 src/stream/kdbx3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 946e254..2ad838c 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -9,6 +9,7 @@ where
     inner: R,
     buffer: Vec<u8>,
     buf_idx: usize,
+    finished: bool,
 }
 
 impl<R> HashedBlockReader<R>
@@ -20,6 +21,7 @@ where
             inner,
             buffer: Vec::new(),
             buf_idx: 0,
+            finished: false,
         }
     }
 
@@ -31,6 +33,11 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
+        if len == 0 {
+            // The final block is empty and has no hash
+            self.finished = true;
+            return Ok(0);
+        }
         self.buffer = read_buffer(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
@@ -51,7 +58,7 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
 
-        if remaining_in_buffer == 0 {
+        if remaining_in_buffer == 0 && !self.finished {
             remaining_in_buffer = self.buffer_next_block()?;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
-- 
2.43.0


From b78987169db4991e9e382c1587126545843c6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:46 +0000
Subject: [PATCH 29/38] fix: verify the end of compressed archives

Decompression stops at the end of the compressed data without reading the
remaining blocks. An archive whose final block was cut off or altered was
accepted.
---
 src/stream/hmac.rs     |  5 ++++-
 src/stream/pipeline.rs | 25 +++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a691ef3..4a69f92 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -11,6 +11,7 @@ where
     block_idx: u64,
     buf_idx: usize,
     buffer: Vec<u8>,
+    finished: bool,
     inner: R,
     hmac_key: HmacKey,
 }
@@ -21,6 +22,7 @@ impl<R: io::Read> HMacReader<R> {
             block_idx: 0,
             buf_idx: 0,
             buffer: Vec::new(),
+            finished: false,
             inner,
             hmac_key,
         }
@@ -45,6 +47,7 @@ impl<R: io::Read> HMacReader<R> {
         }
         self.buf_idx = 0;
         self.block_idx += 1;
+        self.finished = len == 0;
         Ok(len)
     }
 }
@@ -53,7 +56,7 @@ impl<R: Read> Read for HMacReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
 
-        if remaining_in_buffer == 0 {
+        if remaining_in_buffer == 0 && !self.finished {
             remaining_in_buffer = self.buffer_next_block()?;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index f588b96..a096b3d 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -74,6 +74,27 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
     Ok(stream)
 }
 
+/// Decompresses data, then reads the rest of the underlying stream
+///
+/// This makes sure the end of the stream is verified as well.
+struct GzipReader<R: io::Read>(libflate::gzip::Decoder<R>);
+
+impl<R: io::Read> GzipReader<R> {
+    fn new(inner: R) -> io::Result<GzipReader<R>> {
+        Ok(GzipReader(libflate::gzip::Decoder::new(inner)?))
+    }
+}
+
+impl<R: io::Read> io::Read for GzipReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let count = self.0.read(buf)?;
+        if count == 0 && !buf.is_empty() {
+            io::copy(self.0.as_inner_mut(), &mut io::sink())?;
+        }
+        Ok(count)
+    }
+}
+
 pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     inner: R,
     cipher_key: crypto::CipherKey,
@@ -95,7 +116,7 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(verified),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(verified)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(verified)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -120,7 +141,7 @@ pub(crate) fn kdbx4_read_stream<'a, R: io::Read + 'a>(
     let decrypted = decryption_stream(verified, cipher_key, cipher, iv)?;
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(decrypted),
-        binary::CompressionType::Gzip => Box::new(libflate::gzip::Decoder::new(decrypted)?),
+        binary::CompressionType::Gzip => Box::new(GzipReader::new(decrypted)?),
         binary::CompressionType::Unknown(_) => {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
-- 
2.43.0


From f3bae75d1181d225c6dd27943b0095dce30959fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:39 +0000
Subject: [PATCH 30/38] fix: report wrong credentials for KDBX 3 archives as
 such

A failed start bytes check was reported as a generic decryption failure. The
documented error for it was never used, so callers could not tell a wrong
password from other problems.
---
 src/stream/pipeline.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index a096b3d..612d9d1 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -1,5 +1,6 @@
 use crate::binary;
 use crate::crypto;
+use crate::errors::UnlockError;
 use std::io;
 
 use aes::{Aes128, Aes256};
@@ -102,26 +103,23 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     iv: &[u8],
     compression: binary::CompressionType,
     expected_start_bytes: &[u8],
-) -> io::Result<Box<dyn io::Read + 'a>> {
+) -> Result<Box<dyn io::Read + 'a>, UnlockError> {
     let buffered = io::BufReader::new(inner);
     let mut decrypted = decryption_stream(buffered, cipher_key, cipher, iv)?;
     let mut start_bytes = [0u8; 32];
     decrypted.read_exact(&mut start_bytes)?;
     if start_bytes != expected_start_bytes {
-        return Err(io::Error::new(
-            io::ErrorKind::InvalidData,
-            "Could not validate start bytes",
-        ));
+        return Err(UnlockError::StartBytesInvalid);
     }
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
         binary::CompressionType::None => Box::new(verified),
         binary::CompressionType::Gzip => Box::new(GzipReader::new(verified)?),
         binary::CompressionType::Unknown(_) => {
-            return Err(io::Error::new(
+            return Err(UnlockError::Decrypt(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!("Unsupported compression type {:?}", compression),
-            ))
+            )))
         }
     };
 
-- 
2.43.0


From 5001af83cac26055872d3583ea5068033ae0976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:19 +0000
Subject: [PATCH 31/38] fix: verify the header of KDBX 3 archives

The header hash stored in the encrypted document was ignored. An altered inner
stream key in the header gave wrong passwords without any error.
---
 src/binary/kdbx.rs | 10 +++++++++-
 src/xml/parse.rs   | 28 +++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 0629948..e555c13 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -382,7 +382,15 @@ impl Kdbx<Locked> {
                 let mut stream_cipher = inner_header
                     .inner_stream_cipher
                     .stream_cipher(inner_header.inner_stream_key.as_ref())?;
-                let parsed = crate::xml::parse_xml(data.as_slice(), stream_cipher.as_mut())?;
+                let (parsed, header_hash) = crate::xml::parse::parse_xml_with_header_hash(
+                    data.as_slice(),
+                    stream_cipher.as_mut(),
+                )?;
+                if let Some(hash) = header_hash {
+                    if !crypto::verify_sha256(&self.state.header_data, &hash) {
+                        return Err(errors::HeaderError::ChecksumFailed.into());
+                    }
+                }
                 Ok((inner_header, data, parsed))
             });
         match parsed {
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1af1f6c..ee1e8bc 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -38,6 +38,8 @@ pub enum Error {
     NestingTooDeep,
 }
 
+type HeaderHash = Vec<u8>;
+
 pub type Result<T> = std::result::Result<T, Error>;
 
 impl From<xml::reader::Error> for Error {
@@ -413,8 +415,9 @@ fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
 fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
-) -> Result<Meta> {
+) -> Result<(Meta, Option<HeaderHash>)> {
     let mut meta = Meta::default();
+    let mut header_hash = None;
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement {
@@ -423,6 +426,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
+                "HeaderHash" => {
+                    header_hash = parse_trimmed(xml_event_reader)?
+                        .map(|hash| BASE64_STANDARD.decode(hash).unwrap_or_default());
+                }
                 "DatabaseName" => {
                     meta.database_name = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -442,14 +449,15 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
             _ => {}
         }
     }
-    Ok(meta)
+    Ok((meta, header_hash))
 }
 
 fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut XmlReader<R>,
     stream_cipher: &mut S,
-) -> Result<Database> {
+) -> Result<(Database, Option<HeaderHash>)> {
     let mut db = Database::default();
+    let mut header_hash = None;
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
@@ -460,7 +468,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
-                db.meta = parse_meta(xml_event_reader, stream_cipher)?;
+                let (meta, hash) = parse_meta(xml_event_reader, stream_cipher)?;
+                db.meta = meta;
+                header_hash = hash;
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
             XmlEvent::StartElement { attributes, .. } => {
@@ -470,7 +480,7 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             _ => {}
         }
     }
-    Ok(db)
+    Ok((db, header_hash))
 }
 
 /// Parse decrypted XML into a database
@@ -483,6 +493,14 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     xml_data: R,
     stream_cipher: &mut S,
 ) -> Result<Database> {
+    parse_xml_with_header_hash(xml_data, stream_cipher).map(|(db, _)| db)
+}
+
+/// Parse decrypted XML into a database and the header hash stored with it in KDBX 3
+pub(crate) fn parse_xml_with_header_hash<R: Read, S: StreamCipher + ?Sized>(
+    xml_data: R,
+    stream_cipher: &mut S,
+) -> Result<(Database, Option<HeaderHash>)> {
     let xml_config = xml::ParserConfig::new()
         .trim_whitespace(false)
         .whitespace_to_characters(true)
-- 
2.43.0


From 2b832e29a5d5b41b772313b04159697e96b927c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:52 +0000
Subject: [PATCH 32/38] fix: print usage when a tool is started without a file

The check for missing arguments never applied, so the tools panicked.
---
 src/bin/kdbx_decrypt.rs     | 5 +++--
 src/bin/kdbx_dump_header.rs | 5 +++--
 src/bin/kdbx_parse.rs       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 87c47f9..6981121 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 5582ac6..30ccb2a 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -39,8 +39,9 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-dump-header <path to kdbx file>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-dump-header <path to kdbx file>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let header = kdbx.header();
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 4e1e525..770ef01 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        eprintln!("Usage: kdbx-parse <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
-- 
2.43.0


From 1e85d27b4348de458eb3fd5759e237c441003cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:58 +0000
Subject: [PATCH 33/38] fix: escape carriage returns in text

XML parsers turn literal carriage returns into line feeds, so other
programs read back a different text than was saved. Write them as
character references instead.
---
 src/xml/serialize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index d2c797a..9b8010c 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -6,6 +6,7 @@ use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
 use xml::common::is_xml10_char;
+use xml::escape::escape_str_pcdata;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -46,8 +47,10 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     if let Some(c) = value.as_ref().chars().find(|c| !is_xml10_char(*c)) {
         return Err(Error::InvalidCharacter(c));
     }
+    // A literal carriage return would be read back as a line feed by XML parsers
+    let escaped = escape_str_pcdata(value.as_ref()).replace('\r', "&#xD;");
     writer.write(XmlEvent::start_element(name))?;
-    writer.write(XmlEvent::characters(value.as_ref()))?;
+    writer.write(XmlEvent::characters(&escaped))?;
     writer.write(XmlEvent::end_element())?;
     Ok(())
 }
@@ -206,9 +209,11 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<()> {
-    let config = xml::EmitterConfig::default()
+    let mut config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
+    // Text is escaped by write_string_tag
+    config.perform_escaping = false;
     let mut writer = xml::EventWriter::new_with_config(output, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
     write_meta(&mut writer, &database.meta, stream_cipher)?;
-- 
2.43.0


From a4e8e020116b1e03b599bfbb4851e421580ca8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:58 +0000
Subject: [PATCH 34/38] fix: print decrypted XML that is not UTF-8

kdbx-decrypt panicked when the XML document of an archive used another
encoding. Print the bytes of the document unchanged.
---
 src/bin/kdbx_decrypt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 6981121..63ab2f5 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -3,6 +3,8 @@
 //! Primarily for investigating the kdbx format. It takes the password
 //! on the CLI, which is insecure
 
+use std::io::Write;
+
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
     if args.len() < 2 {
@@ -12,7 +14,11 @@ fn main() -> Result<(), kdbx_rs::Error> {
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
     let kdbx = kdbx.unlock(&key)?;
-    let data: Vec<u8> = kdbx.raw_xml().unwrap().to_vec();
-    println!("{}", String::from_utf8(data).unwrap());
+    // The XML is not necessarily encoded as UTF-8, so print the bytes as they are
+    let mut data: Vec<u8> = kdbx.raw_xml().unwrap().to_vec();
+    data.push(b'\n');
+    std::io::stdout()
+        .write_all(&data)
+        .map_err(kdbx_rs::errors::WriteError::from)?;
     Ok(())
 }
-- 
2.43.0


From 50b8e02f19a67810d80b8104854f066d63b70646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:20 +0000
Subject: [PATCH 35/38] fix: limit how deep XML elements of any kind may be
 nested

The XML parser spends time on each element in proportion to the number of
elements around it. A small file of nested unknown elements could take
minutes to read.
---
 src/xml/parse.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index ee1e8bc..f1c91d4 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -33,13 +33,18 @@ pub enum Error {
     /// A string field did not decrypt correctly
     #[error("Could not decrypt value for Key {0:?}")]
     DecryptFailed(String),
-    /// Groups or entries are nested deeper than this library supports
+    /// Groups, entries or other elements are nested deeper than this library supports
     #[error("Groups or entries are nested too deeply")]
     NestingTooDeep,
 }
 
 type HeaderHash = Vec<u8>;
 
+/// Elements that may be open at once
+///
+/// Nested history takes up two elements for each level.
+const MAX_OPEN_ELEMENTS: usize = 4 * MAX_NESTING_DEPTH;
+
 pub type Result<T> = std::result::Result<T, Error>;
 
 impl From<xml::reader::Error> for Error {
@@ -52,13 +57,37 @@ impl From<xml::reader::Error> for Error {
 ///
 /// All parsing stops at the closing tag of the element being parsed, so
 /// reaching the end of the document means that tag is missing.
-struct XmlReader<R: Read>(EventReader<R>);
+struct XmlReader<R: Read> {
+    events: EventReader<R>,
+    open_elements: usize,
+}
 
 impl<R: Read> XmlReader<R> {
+    fn new(events: EventReader<R>) -> XmlReader<R> {
+        XmlReader {
+            events,
+            open_elements: 0,
+        }
+    }
+
+    /// Reads the next event
+    ///
+    /// The underlying parser spends time on each element that grows with the
+    /// number of elements around it, so that number is limited.
     fn next(&mut self) -> Result<XmlEvent> {
-        match self.0.next()? {
+        match self.events.next()? {
             XmlEvent::EndDocument => Err(Error::Xml("Unexpected end of document".into())),
-            event => Ok(event),
+            event => {
+                match event {
+                    XmlEvent::StartElement { .. } => self.open_elements += 1,
+                    XmlEvent::EndElement { .. } => self.open_elements -= 1,
+                    _ => {}
+                }
+                if self.open_elements > MAX_OPEN_ELEMENTS {
+                    return Err(Error::NestingTooDeep);
+                }
+                Ok(event)
+            }
         }
     }
 }
@@ -505,6 +534,6 @@ pub(crate) fn parse_xml_with_header_hash<R: Read, S: StreamCipher + ?Sized>(
         .trim_whitespace(false)
         .whitespace_to_characters(true)
         .cdata_to_characters(true);
-    let mut xml_event_reader = XmlReader(EventReader::new_with_config(xml_data, xml_config));
+    let mut xml_event_reader = XmlReader::new(EventReader::new_with_config(xml_data, xml_config));
     parse_file(&mut xml_event_reader, stream_cipher)
 }
-- 
2.43.0


From 860eef4bcfec96474d7982b9fc2dffb285f1ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:03 +0000
Subject: [PATCH 36/38] fix: report a KDBX 3 file that breaks off inside its
 final padding

Reading stopped at the end marker of the block stream, so a file that lost
part of its last cipher block was still accepted.
---
 src/stream/kdbx3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 2ad838c..12fc5c2 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -34,7 +34,9 @@ where
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
         if len == 0 {
-            // The final block is empty and has no hash
+            // The final block is empty and has no hash. Read to the end
+            // of the stream, so that missing data is noticed
+            io::copy(&mut self.inner, &mut io::sink())?;
             self.finished = true;
             return Ok(0);
         }
-- 
2.43.0


From e01bd09f9fda293fdd5220047e08f9c713bdb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:06 +0000
Subject: [PATCH 37/38] fix: take the times of new items in UTC

Times are stored as UTC, but a new item's times were taken from the local
clock, so away from UTC they were wrong by the zone's offset.
---
 src/database.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 7788981..27cd415 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -752,10 +752,7 @@ pub struct Times {
 
 impl Default for Times {
     fn default() -> Times {
-        let now = chrono::Local::now()
-            .naive_local()
-            .with_nanosecond(0)
-            .unwrap();
+        let now = chrono::Utc::now().naive_utc().with_nanosecond(0).unwrap();
         Times {
             expires: false,
             usage_count: 0,
-- 
2.43.0


From 29a3adca5cf58c7abc00352937102a9b4dfc5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:32 +0000
Subject: [PATCH 38/38] fix: keep the reason when XML input can not be read

The XML parser's msg() does not tell why reading failed, an I/O error
while parsing was reported with a fixed text. Its Display form tells
both the reason and the position.
---
 src/xml/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index f1c91d4..73c3242 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -49,7 +49,7 @@ pub type Result<T> = std::result::Result<T, Error>;
 
 impl From<xml::reader::Error> for Error {
     fn from(e: xml::reader::Error) -> Error {
-        Error::Xml(e.msg().to_string())
+        Error::Xml(e.to_string())
     }
 }
 
-- 
2.43.0

