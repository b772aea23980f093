From b4eea12834bade8d76163efdd68e7412a2939562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 01/30] fix: print brackets and non-ASCII text in styled
 messages instead of panicking

---
 src/styles.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..197df3b 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,10 +148,19 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            if styled_string[i..].starts_with('[') {
+                let end = styled_string[i..].find(']').map_or(len, |end| end + i);
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
+                let is_directive =
+                    end < len && parts.len() == 2 && matches!(parts[0], "color" | "bg" | "style");
+
+                // Brackets that do not form a style directive are part of the text
+                if !is_directive {
+                    result.push('[');
+                    i += 1;
+                    continue;
+                }
 
                 if parts.len() == 2 {
                     match parts[0] {
-- 
2.43.0


From f39c79600e9ba8a4cc762e6a67df8ea2ed9b2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 02/30] fix: reject program files too short for their header,
 metadata and checksum

---
 src/calculator/file/from_8xp.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..642cfa9 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,20 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    // header, metadata and checksum are always present
+    let minimum_length = match file_type {
+        ProgramFileType::XP => 55 + 19 + 2,
+        _ => 55 + 17 + 2,
+    };
+
+    if bytes.len() < minimum_length {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{} bytes, a program file has at least {}",
+            bytes.len(),
+            minimum_length
+        )));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From 84e8706673a56123395440c8262198d2f3d3108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 03/30] fix: do not load json files as 8xp files

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..b511bd8 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -403,7 +403,7 @@ pub enum ProgramFileType {
 
 impl ProgramFileType {
     pub fn is_8xp(&self) -> bool {
-        !matches!(self, ProgramFileType::TXT)
+        !matches!(self, ProgramFileType::TXT | ProgramFileType::JSON)
     }
 
     pub fn is_txt(&self) -> bool {
-- 
2.43.0


From 862e20c1b7e545141b9364f989bcbb65d52d4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 04/30] fix: report file extensions that are not valid unicode
 instead of panicking

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index b511bd8..5ac0dfe 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -434,7 +434,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
-- 
2.43.0


From 9fa6ff99b31f3bd23465d34ba1ef703613f34d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 05/30] fix: update the checksum when the metadata of a program
 is edited

---
 src/calculator/program.rs | 13 ++++++++++++-
 src/commands/edit/mod.rs  |  6 ++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5ac0dfe..37ae3ec 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -170,7 +170,8 @@ impl Program {
                 output_bytes.extend(self.header.bytes.to_vec());
                 output_bytes.extend(self.metadata.bytes.to_vec());
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
+                // the metadata may have been edited since the checksum was read
+                output_bytes.extend(Checksum::of(&self.metadata.bytes, &self.body.bytes).bytes);
 
                 write_to_file(path, output_bytes)?
             }
@@ -383,6 +384,16 @@ impl Checksum {
         Checksum { bytes, value }
     }
 
+    /// The lower 16 bits of the sum of all metadata and body bytes
+    pub fn of(metadata_bytes: &[u8], body_bytes: &[u8]) -> Checksum {
+        let value = metadata_bytes
+            .iter()
+            .chain(body_bytes)
+            .fold(0u16, |sum, &byte| sum.wrapping_add(byte as u16));
+
+        Checksum::new(value.to_le_bytes().to_vec(), value)
+    }
+
     pub fn display(&self) -> String {
         format!(
             "Checksum\n\
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..ad59537 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -6,7 +6,7 @@ pub mod unarchive;
 pub mod unlock;
 
 use crate::calculator::errors::TiToolsError;
-use crate::calculator::program::Program;
+use crate::calculator::program::{Checksum, Program};
 use crate::calculator::DisplayMode;
 use std::path::{Path, PathBuf};
 
@@ -20,11 +20,13 @@ fn load_program(input_path: &Path) -> Program {
 }
 
 fn save_edits(
-    program: Program,
+    mut program: Program,
     input_path: &PathBuf,
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
+    program.checksum = Checksum::of(&program.metadata.bytes, &program.body.bytes);
+
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
 
-- 
2.43.0


From 70599e2362b9a410ab84fc2d9e50c20df020b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 06/30] fix: load the metadata of 82p and 83p files completely

---
 src/calculator/file/from_8xp.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 642cfa9..f1403e2 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -76,7 +76,7 @@ pub fn create_from_8xp(
 
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
 
-    let header = Header::new(
+    let mut header = Header::new(
         header_bytes.to_vec(),
         signature,
         signature_extra.to_vec(),
@@ -122,16 +122,18 @@ pub fn create_from_8xp(
             new_metadata_bytes.push(0x00);
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            let program_type = FileType::from_byte(metadata_bytes[4])?;
+            new_metadata_bytes.push(program_type.to_byte());
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
             new_metadata_bytes.push(0x00);
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -139,7 +141,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                program_type,
                 name,
                 0x00,
                 Destination::RAM,
@@ -159,6 +161,16 @@ pub fn create_from_8xp(
         }
     };
 
+    // the metadata of 82p and 83p files was extended to the 8xp metadata, so the length of the
+    // metadata in the header and the checksum changed as well
+    let mut checksum_bytes = checksum_bytes.to_vec();
+    if !matches!(file_type, ProgramFileType::XP) {
+        let metadata_and_body_length = (metadata.bytes.len() + body_bytes.len()) as u16;
+        header.bytes[53..55].copy_from_slice(&metadata_and_body_length.to_le_bytes());
+        header.metadata_and_body_length = metadata_and_body_length;
+        checksum_bytes = Checksum::of(&metadata.bytes, body_bytes).bytes;
+    }
+
     // body translation
     let translation = decode(body_bytes, &tokens, "en", display_mode)?;
 
@@ -167,7 +179,7 @@ pub fn create_from_8xp(
     // checksum translation
     let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
 
-    let checksum = Checksum::new(checksum_bytes.to_vec(), checksum_value);
+    let checksum = Checksum::new(checksum_bytes, checksum_value);
 
     Ok((header, metadata, body, checksum, model_details))
 }
-- 
2.43.0


From 1d09d19c485df6fbc99dc57d3ab996f14be0a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 07/30] fix: write 82p and 83p files with the metadata they are
 read with

---
 src/calculator/program.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 37ae3ec..8907a3d 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -166,12 +166,25 @@ impl Program {
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
+                let mut header_bytes = self.header.bytes.to_vec();
+                let mut metadata_bytes = self.metadata.bytes.to_vec();
+
+                // 82p and 83p metadata does not have the version and destination bytes
+                if !matches!(file_type, ProgramFileType::XP) {
+                    metadata_bytes[0] = 0x0B;
+                    metadata_bytes.drain(13..15);
+                    let metadata_and_body_length =
+                        (metadata_bytes.len() + self.body.bytes.len()) as u16;
+                    header_bytes[53..55].copy_from_slice(&metadata_and_body_length.to_le_bytes());
+                }
 
-                output_bytes.extend(self.header.bytes.to_vec());
-                output_bytes.extend(self.metadata.bytes.to_vec());
-                output_bytes.extend(self.body.bytes.to_vec());
                 // the metadata may have been edited since the checksum was read
-                output_bytes.extend(Checksum::of(&self.metadata.bytes, &self.body.bytes).bytes);
+                let checksum = Checksum::of(&metadata_bytes, &self.body.bytes);
+
+                output_bytes.extend(header_bytes);
+                output_bytes.extend(metadata_bytes);
+                output_bytes.extend(self.body.bytes.to_vec());
+                output_bytes.extend(checksum.bytes);
 
                 write_to_file(path, output_bytes)?
             }
-- 
2.43.0


From 19c94a4d1c69867f004a1f196a1fd9d65bd7a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 08/30] fix: recognize TI-83 files by their signature

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..0ab0765 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
-- 
2.43.0


From cd00c06549ee1a963b20373a6d85fc0d507a3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 09/30] fix: keep the model when a program is saved to json and
 loaded again

---
 src/calculator/models.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 0ab0765..c701f06 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -82,7 +82,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -117,6 +117,16 @@ impl PartialEq for Model {
     }
 }
 
+// Models are deserialized by their name
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From dc6b64c60a42c88e1af9f3422b99bf8c490968d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 10/30] fix: compare equal os versions as equal

---
 src/calculator/tokens/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..94ea9c9 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -41,7 +41,9 @@ impl Ord for OsVersion {
         let other_order = other.model.model_order();
 
         self_order.cmp(&other_order).then_with(|| {
-            if self.version == "latest" {
+            if self.version == other.version {
+                Ordering::Equal
+            } else if self.version == "latest" {
                 Ordering::Greater
             } else if other.version == "latest" || self.version.is_empty() {
                 Ordering::Less
-- 
2.43.0


From 4181e6a41cca05f7541c6a23a250c1ecca3e5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 11/30] fix: choose the same token every time when several have
 the same translation

---
 src/calculator/tokens/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index 94ea9c9..ef1bbc4 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -127,7 +127,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            // tokens can have the same translation, always use the one with the first key
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length && token.as_str() < longest_key))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -157,7 +161,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            // tokens can have the same translation, always use the one with the first key
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length && token.as_str() < shortest_key))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
-- 
2.43.0


From ef4a9b6d05768753faf7b0db882c2f41e59e65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 12/30] fix: keep the display mode of programs loaded from txt
 files

---
 src/calculator/file/from_txt.rs | 19 ++++++++++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..9dbe911 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, DisplayMode, ModelDetails), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
@@ -126,7 +132,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        display_mode,
+        model_details,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 8907a3d..160b9e6 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, display_mode, model) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, display_mode, model)) => {
+                    (header, metadata, body, checksum, display_mode, model)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From b6449317e1e73f56e6b9cb91ed03d4177b2e6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 13/30] fix: keep empty lines at the end of a program when
 converting it to txt and back

---
 src/calculator/file/encode.rs | 2 +-
 src/calculator/program.rs     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..0b9d6dc 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -55,7 +55,7 @@ pub fn encode(
     };
 
     let mut state = EncodeState::new(encode_mode);
-    for line in decoded_program.lines() {
+    for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 160b9e6..c6768ea 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -190,7 +190,7 @@ impl Program {
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
-                let output_string = format!(
+                let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
                     self.metadata.name,
                     self.header.comment,
@@ -200,6 +200,10 @@ impl Program {
                     self.model.model.to_string(),
                     &self.body.translation
                 );
+                // the last line break of a txt file ends its last line, it is not part of the program
+                if self.body.translation.ends_with('\n') {
+                    output_string.push('\n');
+                }
                 write_to_file(path, output_string)?
             }
             ProgramFileType::JSON => {
-- 
2.43.0


From d3088b8e4ddc1b64758238d167e0243aec347d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 14/30] fix: check the type of the output file before deleting
 the existing file

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index c6768ea..6112cc9 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -133,6 +133,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -159,11 +164,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
-- 
2.43.0


From b4b63d52fadf260eb44bfe746f4ed660baa774a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 15/30] fix: keep the existing file until the new one is
 completely written

---
 src/calculator/program.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 6112cc9..f18fe1a 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -147,16 +147,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -569,9 +560,16 @@ impl Destination {
 }
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    // Written to a temporary file first, so an existing file is only replaced by a complete one
+    let temporary_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+
+    let result = std::fs::write(&temporary_path, content)
+        .and_then(|_| std::fs::rename(&temporary_path, path));
+
+    match result {
         Ok(_) => Ok(()),
         Err(err) => {
+            let _ = std::fs::remove_file(&temporary_path);
             return Err(TiToolsError::FailedToWriteFile(
                 path.to_str().unwrap().to_string(),
                 err.to_string(),
-- 
2.43.0


From e1607887f1b2af9277ae41ecb85b5f11e9d43823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 16/30] fix: do not delete the edited program when it was saved
 over the old file

---
 src/commands/edit/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index ad59537..7369c51 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -37,6 +37,12 @@ fn save_edits(
     } else {
         let new_file_path = new_file_path.unwrap();
         let new_file_path = Path::new(&new_file_path).to_path_buf();
+        // the old file must not be deleted if it was replaced by the new file
+        let is_same_file = match (input_path.canonicalize(), new_file_path.canonicalize()) {
+            (Ok(input_path), Ok(new_file_path)) => input_path == new_file_path,
+            _ => false,
+        };
+
         let result = program.save_to(&new_file_path);
 
         match result {
@@ -44,7 +50,7 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        if delete_old && !is_same_file {
             let result = std::fs::remove_file(input_path);
 
             match result {
-- 
2.43.0


From f61743a4d9fb9e2ffbdc181e63b3f267c723b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 17/30] fix: reject programs too large for the length fields of
 a program file

---
 src/calculator/file/from_8xp.rs | 9 +++++++++
 src/calculator/file/from_txt.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index f1403e2..68c83ad 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -49,6 +49,15 @@ pub fn create_from_8xp(
     };
     let (body_bytes, checksum_bytes) = bytes.split_at(bytes.len() - 2);
 
+    // the length of the metadata and body is stored in 2 bytes
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "the program has {} bytes, a program file can have at most {}",
+            body_bytes.len(),
+            u16::MAX as usize - 19
+        )));
+    }
+
     // header translation
     let signature = header_bytes[0..8]
         .iter()
diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 9dbe911..b5d90d1 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -71,6 +71,15 @@ pub fn create_from_txt(
         encode_mode,
     )?;
 
+    // the length of the metadata and body is stored in 2 bytes
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "the program has {} bytes, a program file can have at most {}",
+            body_bytes.len(),
+            u16::MAX as usize - 19
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From 123ea392bb71cf71a81cb2ef155f83d36a20c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 18/30] fix: do not convert files created during the same mass
 conversion

---
 src/commands/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..cbf0f39 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -119,7 +119,12 @@ pub fn convert_command(
             .expect("Failed to create directory")
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    // All entries are read before the first file is saved, the output directory can be the input directory
+    let entries: Vec<_> = fs::read_dir(input_path)
+        .expect("Failed to read directory")
+        .collect();
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From 54e92a7d4d442f0dcc05297dd76534c43a341b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 19/30] fix: convert the remaining files when a file can not be
 converted during mass conversion

---
 src/commands/convert.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index cbf0f39..d785800 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -69,14 +69,17 @@ pub fn convert_command(
             Err(err) => err.print().exit(),
         };
 
-        let program = convert_program(
+        let program = match convert_program(
             &program_file_type,
             input_path,
             display_mode,
             encode_mode,
             content,
             preview,
-        );
+        ) {
+            Ok(program) => program,
+            Err(err) => err.print().exit(),
+        };
 
         if output_path_string.is_some() {
             match program.save_to(&Path::new(&output_path_string.as_ref().unwrap()).to_path_buf()) {
@@ -124,6 +127,8 @@ pub fn convert_command(
         .expect("Failed to read directory")
         .collect();
 
+    let mut failed_to_convert = false;
+
     for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
@@ -161,14 +166,22 @@ pub fn convert_command(
             Err(err) => err.print().exit(),
         };
 
-        let program = convert_program(
+        let program = match convert_program(
             &file_type,
             &path,
             display_mode,
             encode_mode,
             content,
             preview,
-        );
+        ) {
+            Ok(program) => program,
+            Err(err) => {
+                eprintln!("Failed to convert {}, skipping file:", path.display());
+                err.print();
+                failed_to_convert = true;
+                continue;
+            }
+        };
 
         if output_path_string.is_some() {
             let name = program.metadata.name.to_string();
@@ -307,6 +320,10 @@ pub fn convert_command(
             }
         }
     }
+
+    if failed_to_convert {
+        std::process::exit(1);
+    }
 }
 
 fn convert_program(
@@ -316,7 +333,7 @@ fn convert_program(
     encode_mode: EncodeMode,
     content: bool,
     preview: bool,
-) -> Program {
+) -> Result<Program, TiToolsError> {
     match program_file_type {
         ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
             match Program::load_from_8xp(input_path.to_path_buf(), display_mode) {
@@ -336,9 +353,9 @@ fn convert_program(
                         println!("{}\n", program.to_string());
                     }
 
-                    program
+                    Ok(program)
                 }
-                Err(err) => err.print().exit(),
+                Err(err) => Err(err),
             }
         }
         ProgramFileType::TXT => {
@@ -359,9 +376,9 @@ fn convert_program(
                         println!("\n");
                     }
 
-                    program
+                    Ok(program)
                 }
-                Err(err) => err.print().exit(),
+                Err(err) => Err(err),
             }
         }
         ProgramFileType::JSON => match Program::load_from_json(input_path.to_path_buf()) {
@@ -391,9 +408,9 @@ fn convert_program(
                     println!("{}\n", program.to_string());
                 }
 
-                program
+                Ok(program)
             }
-            Err(err) => err.print().exit(),
+            Err(err) => Err(err),
         },
     }
 }
-- 
2.43.0


From ed5e3995f2c8f9c81c8ce5aa65f0ac872d0073ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 20/30] fix: save every file of a mass conversion in the output
 directory

---
 src/commands/convert.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d785800..ca9fde8 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -184,7 +184,7 @@ pub fn convert_command(
         };
 
         if output_path_string.is_some() {
-            let name = program.metadata.name.to_string();
+            let name = output_file_name(&program.metadata.name, &path);
 
             match file_type {
                 ProgramFileType::XP
@@ -193,12 +193,10 @@ pub fn convert_command(
                 | ProgramFileType::TXT => {
                     let output_path = if file_type.is_8xp() {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("txt")
+                            .join(format!("{}.txt", name))
                     } else {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("8xp")
+                            .join(format!("{}.8xp", name))
                     };
 
                     match program.save_to(&output_path) {
@@ -213,7 +211,7 @@ pub fn convert_command(
                             "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.{}",
                             program.metadata.name,
                             output_path_string.as_ref().unwrap(),
-                            program.metadata.name,
+                            name,
                             output_path.extension().unwrap().to_str().unwrap()
                         );
                         }
@@ -240,12 +238,10 @@ pub fn convert_command(
                 }
                 ProgramFileType::JSON => {
                     let txt_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("txt");
+                        .join(format!("{}.txt", name));
 
                     let xp_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("8xp");
+                        .join(format!("{}.8xp", name));
 
                     match program.save_to(&txt_output_path) {
                         Ok(_) => {
@@ -256,9 +252,10 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.txt",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.txt",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                output_path_string.as_ref().unwrap(),
+                                name
                             );
                         }
                         Err(err) => {
@@ -291,9 +288,10 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.8xp",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.8xp",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                output_path_string.as_ref().unwrap(),
+                                name
                             );
                         }
                         Err(err) => {
@@ -326,6 +324,17 @@ pub fn convert_command(
     }
 }
 
+/// The program name as the name of a file in the output directory
+fn output_file_name(program_name: &str, input_path: &Path) -> String {
+    if program_name.is_empty() {
+        return input_path
+            .file_stem()
+            .map_or(String::new(), |stem| stem.to_string_lossy().to_string());
+    }
+
+    program_name.replace(|c: char| matches!(c, '/' | '\\' | ':') || c.is_control(), "_")
+}
+
 fn convert_program(
     program_file_type: &ProgramFileType,
     input_path: &Path,
-- 
2.43.0


From 597ca6ecb4daf8c09f7e7854f5db191cda191b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 21/30] fix: keep the name and the comment on one line each in
 txt files

---
 src/calculator/program.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f18fe1a..408e3d9 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -183,8 +183,9 @@ impl Program {
             ProgramFileType::TXT => {
                 let mut output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
-                    self.metadata.name,
-                    self.header.comment,
+                    // line breaks would move the lines after them
+                    self.metadata.name.replace(['\n', '\r'], " "),
+                    self.header.comment.replace(['\n', '\r'], " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From fff488a5516c367ea322660b0b528388553432ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 22/30] fix: reject json files with bytes that do not form a
 program file

---
 src/calculator/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 408e3d9..f9ea02e 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -129,6 +129,16 @@ impl Program {
             Err(err) => return Err(TiToolsError::FailedToDeserializeJson(err.to_string())),
         };
 
+        if program.header.bytes.len() != 55
+            || program.metadata.bytes.len() != 19
+            || program.body.bytes.len() + 19 > u16::MAX as usize
+            || program.checksum.bytes.len() != 2
+        {
+            return Err(TiToolsError::InvalidByteLength(
+                "the bytes of the program do not form a program file".to_string(),
+            ));
+        }
+
         Ok(program)
     }
 
-- 
2.43.0


From 2265e6f6272b7017537e04bf2610f94614dc09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 23/30] fix: report directories that can not be created or read
 instead of panicking

---
 src/commands/convert.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index ca9fde8..e92cf5e 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -118,14 +118,19 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            prints!("[color:bright-red]Error:[color:reset] Failed to create directory: {}", err);
+            std::process::exit(1)
+        }
     }
 
     // All entries are read before the first file is saved, the output directory can be the input directory
-    let entries: Vec<_> = fs::read_dir(input_path)
-        .expect("Failed to read directory")
-        .collect();
+    let entries: Vec<_> = match fs::read_dir(input_path) {
+        Ok(entries) => entries.collect(),
+        Err(err) => TiToolsError::FailedToReadDirectory(err.to_string())
+            .print()
+            .exit(),
+    };
 
     let mut failed_to_convert = false;
 
-- 
2.43.0


From a514f856d29f0f1392b2ba06f853371515d4b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 24/30] fix: spell the names of programs and lists with single
 characters in smart mode

---
 src/calculator/file/encode.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 0b9d6dc..046fc81 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -29,6 +29,15 @@ impl<'a> EncodeState<'a> {
         matches!(self.default_mode, EncodeMode::Smart)
     }
 
+    fn leave_custom_name(&mut self) {
+        self.in_custom_name = false;
+        self.current_mode = if self.in_string {
+            &EncodeMode::Min
+        } else {
+            self.default_mode
+        };
+    }
+
     fn reset(&mut self) {
         self.in_string = false;
         self.in_evaluated_string = false;
@@ -65,16 +74,25 @@ pub fn encode(
                 EncodeMode::Smart => tokens.get_longest_matching_token(&temp_line, &display_mode),
             };
 
+            // custom names only contain upper case letters, digits and θ
+            if state.in_custom_name
+                && !token
+                    .as_ref()
+                    .is_some_and(|(key, _)| is_name_character(&convert_key_to_bytes(key)))
+            {
+                state.leave_custom_name();
+                continue;
+            }
+
             match token {
                 Some((key, value)) => {
                     let key_as_bytes = convert_key_to_bytes(&key);
 
                     if state.default_is_smart() {
-                        if state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]
-                        {
+                        if key_as_bytes == vec![0x5F] || key_as_bytes == vec![0xEB] {
                             // prgm and ʟ
                             state.in_custom_name = true;
-                            state.current_mode = &EncodeMode::Max;
+                            state.current_mode = &EncodeMode::Min;
                         } else if key_as_bytes == vec![0x2A] {
                             state.in_string = !state.in_string;
                             // Send(
@@ -84,7 +102,9 @@ pub fn encode(
                         } else if key_as_bytes == vec![0x04] {
                             // -> / →
                             state.reset();
-                        } else if !value.chars().all(|c| c.is_ascii_alphabetic()) {
+                        } else if !state.in_custom_name
+                            && !value.chars().all(|c| c.is_ascii_alphabetic())
+                        {
                             state.reset()
                         }
                     }
@@ -112,6 +132,10 @@ fn normalize(string: &str) -> String {
         .replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")
 }
 
+fn is_name_character(key: &[u8]) -> bool {
+    matches!(key, [0x30..=0x39 | 0x41..=0x5B])
+}
+
 fn convert_key_to_bytes(key: &str) -> Vec<u8> {
     let key = key.replace(" en", "");
     let keys = key.split("$").collect::<Vec<&str>>();
-- 
2.43.0


From b6111c41d7ed0f19c5914925121b23b216a7dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 25/30] fix: use a different temporary file for every file that
 is saved

---
 src/calculator/program.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f9ea02e..f38262a 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -6,6 +6,7 @@ use crate::calculator::{DisplayMode, EncodeMode};
 use serde::{Deserialize, Serialize};
 use std::io::Write;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[derive(Serialize, Deserialize)]
 pub struct Program {
@@ -572,7 +573,12 @@ impl Destination {
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     // Written to a temporary file first, so an existing file is only replaced by a complete one
-    let temporary_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let temporary_path = path.with_file_name(format!(
+        ".ti-tools-{}-{}.tmp",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
 
     let result = std::fs::write(&temporary_path, content)
         .and_then(|_| std::fs::rename(&temporary_path, path));
-- 
2.43.0


From 12fca46943ff5d62680ed86c885436ce8dfcd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 26/30] fix: save through links and keep the permissions of the
 replaced file

---
 src/calculator/program.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f38262a..9882fdb 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -574,14 +574,20 @@ impl Destination {
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     // Written to a temporary file first, so an existing file is only replaced by a complete one
     static COUNTER: AtomicUsize = AtomicUsize::new(0);
-    let temporary_path = path.with_file_name(format!(
+    // Links are followed, the file they lead to is replaced and not the link
+    let target_path = path.canonicalize().unwrap_or(path.to_path_buf());
+    let temporary_path = target_path.with_file_name(format!(
         ".ti-tools-{}-{}.tmp",
         std::process::id(),
         COUNTER.fetch_add(1, Ordering::Relaxed)
     ));
 
     let result = std::fs::write(&temporary_path, content)
-        .and_then(|_| std::fs::rename(&temporary_path, path));
+        .and_then(|_| match std::fs::metadata(&target_path) {
+            Ok(metadata) => std::fs::set_permissions(&temporary_path, metadata.permissions()),
+            Err(_) => Ok(()),
+        })
+        .and_then(|_| std::fs::rename(&temporary_path, &target_path));
 
     match result {
         Ok(_) => Ok(()),
-- 
2.43.0


From f0ee03bec435f32d9e02efe4daf65389e8eaa219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 27/30] fix: convert into an output directory that another
 process has just created

---
 src/commands/convert.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index e92cf5e..ddf50ca 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -118,9 +118,13 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
-            prints!("[color:bright-red]Error:[color:reset] Failed to create directory: {}", err);
-            std::process::exit(1)
+        // Another process can have created the directory since it was looked for
+        match fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            Err(err) if !Path::new(&output_path_string.as_ref().unwrap()).is_dir() => {
+                prints!("[color:bright-red]Error:[color:reset] Failed to create directory: {}", err);
+                std::process::exit(1)
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From b90b25ed48f0a12ba80d0845566c75b3509816a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 28/30] fix: an answer that is not valid UTF-8 is a no, not a
 panic

---
 src/calculator/program.rs |  5 ++++-
 src/commands/convert.rs   | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 9882fdb..f780006 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -155,7 +155,10 @@ impl Program {
             print!("> ");
             input.clear();
             std::io::stdout().flush().unwrap();
-            std::io::stdin().read_line(&mut input).unwrap();
+            // An answer that can't be read is not consent
+            if std::io::stdin().read_line(&mut input).is_err() {
+                input.clear();
+            }
             let input = input.trim();
             if input == "y" || input == "Y" {
                 println!("Replacing existing file");
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index ddf50ca..74c70ef 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -110,7 +110,10 @@ pub fn convert_command(
         print!("> ");
         input.clear();
         std::io::stdout().flush().unwrap();
-        std::io::stdin().read_line(&mut input).unwrap();
+        // An answer that can't be read is not consent
+        if std::io::stdin().read_line(&mut input).is_err() {
+            input.clear();
+        }
         let input = input.trim();
         if input != "y" && input != "Y" {
             prints!("[color:bright-red]Error:[color:reset] An output directory must be created for files to be saved");
@@ -233,7 +236,10 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // An answer that can't be read is not consent
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -276,7 +282,10 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // An answer that can't be read is not consent
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -312,7 +321,10 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // An answer that can't be read is not consent
+                            if std::io::stdin().read_line(&mut input).is_err() {
+                                input.clear();
+                            }
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
-- 
2.43.0


From 554ecdfdcf81b825a2c4d1cec48973e16e18571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:50 +0000
Subject: [PATCH 29/30] fix: report paths that are not valid UTF-8 instead of
 crashing

A dangling link whose name is not UTF-8 ended a mass conversion with a panic,
and the files behind it were not converted.
---
 src/calculator/program.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f780006..e113c2c 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -25,7 +25,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -65,7 +65,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -104,7 +104,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -597,7 +597,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Err(err) => {
             let _ = std::fs::remove_file(&temporary_path);
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
                 err.to_string(),
             ))
         }
-- 
2.43.0


From 1d47f719e1fbd135e39bc1ca81dff0c9683bed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:34 +0000
Subject: [PATCH 30/30] fix: report arguments that are not valid UTF-8 instead
 of crashing

---
 src/cli.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..93b9c85 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -12,6 +12,21 @@ pub struct Cli {
     pub default_command: Option<String>,
 }
 
+/// The arguments as text, the first one is the path of the program
+fn arguments() -> Vec<String> {
+    env::args_os()
+        .enumerate()
+        .map(|(index, arg)| match arg.into_string() {
+            Ok(arg) => arg,
+            Err(arg) if index == 0 => arg.to_string_lossy().to_string(),
+            Err(arg) => {
+                println!("Argument is not valid UTF-8: {}", arg.to_string_lossy());
+                std::process::exit(1)
+            }
+        })
+        .collect()
+}
+
 impl Cli {
     pub fn new() -> Cli {
         Cli {
@@ -76,7 +91,7 @@ impl Cli {
 
     /// Match the command being passed in the arguments
     pub fn match_commands(&self) -> &Command {
-        let args: Vec<String> = env::args().collect();
+        let args = arguments();
         if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {}
 
         if args.len() <= 1 {
@@ -184,7 +199,7 @@ impl Command {
             .iter()
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
-                let args: Vec<String> = env::args().collect();
+                let args = arguments();
                 let found = args
                     .iter()
                     .any(|s| *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));
@@ -205,7 +220,7 @@ impl Command {
             .enumerate()
             .find(|(_, option)| option.name == option_name)
             .and_then(|(index, option)| {
-                let args: Vec<String> = env::args().collect();
+                let args = arguments();
                 if args.len() <= 2 + (index) {
                     return Some(Value::Missing(format!(
                         "{} could not be found in its location ({})",
@@ -234,7 +249,7 @@ impl Command {
             .iter()
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
-                let args: Vec<String> = env::args().collect();
+                let args = arguments();
                 let arg_index = args.iter().position(|s| {
                     *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long)
                 });
-- 
2.43.0

