From 6ee0103c1b72f410f5a84c2d6d06114ba7e794ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 001/102] fix: recognise Lyrics3v2 blocks by their whole 9 byte
 marker

---
 lofty/src/id3/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..7fdda79 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -88,17 +88,18 @@ where
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The size does not include the size field itself (6) or the "LYRICS200" marker (9)
+		size += lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From c18999cb87124867b4ab590ad946e75c5348b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 002/102] fix: do not append a blank ID3v1 tag when there is
 nothing to remove

---
 lofty/src/id3/v1/write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..f82fc03 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,7 +28,12 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
+	if tag.is_empty() {
+		if header.is_none() {
+			// Nothing to strip
+			return Ok(());
+		}
+
 		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
 		// shrink it down.
 		let new_length = file.len()?.saturating_sub(128);
-- 
2.43.0


From c2b21ecabd1f24ad8fc0a4048b28399a0a534afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 003/102] fix: do not take the preamble of an APE tag for an
 ID3v1 tag

---
 lofty/src/id3/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 7fdda79..7f6ef97 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -136,6 +136,17 @@ where
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	// The marker can also be the middle of an "APETAGEX" preamble, if there's an APE tag of just the right size
+	if data.seek(SeekFrom::End(-131)).is_ok() {
+		let mut preamble = [0; 8];
+		data.read_exact(&mut preamble)?;
+		if &preamble == b"APETAGEX" {
+			data.seek(SeekFrom::End(0))?;
+			return Ok(ID3FindResults(header, id3v1));
+		}
+	}
+	data.seek(SeekFrom::End(-128))?;
+
 	log::debug!("Found an ID3v1 tag, parsing");
 
 	header = Some(());
-- 
2.43.0


From 504f2a1b0f737386c23e062ad891bef12f47cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 004/102] fix: only count the header of an APE tag if it has
 one

---
 lofty/src/ape/tag/header.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..ee98dd1 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -28,19 +28,19 @@ where
 	}
 
 	let item_count = data.read_u32::<LittleEndian>()?;
+	let flags = data.read_u32::<LittleEndian>()?;
 
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size - 8).neg()))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
-		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		// There are 8 reserved bytes remaining in the header
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and in version 2 it is optional
+	let has_header = !footer || flags >> 31 == 1;
+	if version == 2000 && has_header {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 6bd99939c8ce074cf1b06d64fa7b38f47089019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 005/102] fix: skip exactly the APE tag when tags are not read

---
 lofty/src/ape/tag/header.rs | 22 +++++++++++++++++++---
 lofty/src/ape/tag/read.rs   |  3 +++
 lofty/src/mpeg/read.rs      |  2 +-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index ee98dd1..b4880bf 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -11,6 +11,18 @@ use byteorder::{LittleEndian, ReadBytesExt};
 pub(crate) struct ApeHeader {
 	pub(crate) size: u32,
 	pub(crate) item_count: u32,
+	pub(crate) has_header: bool,
+}
+
+impl ApeHeader {
+	/// The size of the items and footer, all that follows the header
+	pub(crate) fn size_past_header(&self) -> u32 {
+		if self.has_header {
+			self.size.saturating_sub(32)
+		} else {
+			self.size
+		}
+	}
 }
 
 pub(crate) fn read_ape_header<R>(data: &mut R, footer: bool) -> Result<ApeHeader, ApeTagParseError>
@@ -39,8 +51,8 @@ where
 	}
 
 	// Version 1 doesn't include a header, and in version 2 it is optional
-	let has_header = !footer || flags >> 31 == 1;
-	if version == 2000 && has_header {
+	let has_header = version == 2000 && (!footer || flags >> 31 == 1);
+	if has_header {
 		size = size.saturating_add(32);
 	}
 
@@ -48,5 +60,9 @@ where
 		return Err(SizeMismatchError.into());
 	}
 
-	Ok(ApeHeader { size, item_count })
+	Ok(ApeHeader {
+		size,
+		item_count,
+		has_header,
+	})
 }
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..840251f 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -123,6 +123,9 @@ pub(crate) fn read_ape_tag<R: Read + Seek>(
 		let ape_header = header::read_ape_header(reader, footer)?;
 		if parse_options.read_tags {
 			ape_tag = Some(read_ape_tag_with_header(reader, ape_header, parse_options)?);
+		} else {
+			// Leave the reader at the end of the tag, the same as if it was read
+			reader.seek(SeekFrom::Current(i64::from(ape_header.size_past_header())))?;
 		}
 
 		return Ok((ape_tag, Some(ape_header)));
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..1156101 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -90,7 +90,7 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						reader.seek(SeekFrom::Current(i64::from(ape_header.size_past_header())))?;
 					}
 
 					continue;
-- 
2.43.0


From 77a4c2887eaa9636bf290aa383872a7d6ce8133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 006/102] fix: read Monkey's Audio files that start with an APE
 tag

---
 lofty/src/ape/read.rs     | 13 +++++++++++--
 lofty/src/wavpack/read.rs |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..5117379 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -61,9 +61,10 @@ where
 	let mut mac_start = 0;
 
 	let mut header = [0; 4];
-	data.read_exact(&mut header)?;
 
 	while !found_mac {
+		data.read_exact(&mut header)?;
+
 		match &header {
 			b"MAC " => {
 				mac_start = data.stream_position()?;
@@ -96,6 +97,10 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					data.seek(SeekFrom::Current(i64::from(
+						ape_header.size_past_header(),
+					)))?;
 				}
 			},
 			_ => {
@@ -143,7 +148,11 @@ where
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..fae6234 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,11 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From 7278a20a9f2005fe8438b2de49433424d5321c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 007/102] fix: find an existing APE tag at the start of a file
 when writing

---
 lofty/src/ape/tag/write.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..96eff01 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
@@ -93,9 +90,10 @@ where
 
 			header_tag_location = Some(start..start + header.size as usize);
 		},
-		_ => {
-			file.seek(SeekFrom::Current(-8))?;
+		(None, Some(header)) => {
+			header_tag_location = Some(start..start + header.size as usize);
 		},
+		_ => {},
 	}
 
 	// Skip over ID3v1 and Lyrics3v2 tags
@@ -113,10 +111,12 @@ where
 
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
-	if let (Some(mut existing_tag), Some(header)) =
+	if let (existing_tag, Some(header)) =
 		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		if write_options.respect_read_only {
+		if let Some(mut existing_tag) = existing_tag
+			&& write_options.respect_read_only
+		{
 			existing_tag.items.retain(|i| i.read_only);
 
 			if !existing_tag.items.is_empty() {
-- 
2.43.0


From 2e37a54f8d7256fa1eeb10d932539d613de7eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 008/102] fix: report I/O errors while searching for MPEG and
 ADTS frames

---
 lofty/src/aac/read.rs    |  7 ++++---
 lofty/src/mpeg/header.rs | 37 ++++++++++++++++---------------------
 lofty/src/mpeg/read.rs   | 10 +++++-----
 lofty/src/util/io.rs     | 11 +++++++++++
 4 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..9f13103 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -5,6 +5,7 @@ use crate::config::{ParseOptions, ParsingMode};
 use crate::id3::v2::header::Id3v2Header;
 use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{ID3FindResults, find_id3v1};
+use crate::io::ReadExt;
 use crate::mpeg::header::{HeaderCmpResult, cmp_header, search_for_frame_sync};
 
 use std::io::{Read, Seek, SeekFrom};
@@ -39,7 +40,7 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	while reader.read_exact_or_eof(&mut header)? {
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			[b'I', b'D', b'3', ..] => {
@@ -166,7 +167,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_adts_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_adts_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -181,7 +182,7 @@ where
 				u32::from(first_header.len),
 				u32::from_be_bytes(first_header.bytes[..4].try_into().unwrap()),
 				HEADER_MASK,
-			) {
+			)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((
 						first_header,
diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..6cd3c0a 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -122,41 +122,36 @@ pub(super) const HEADER_MASK: u32 = 0xFFFE_0C00;
 ///
 /// - [`HeaderCmpResult::Equal`] if the headers are equal.
 /// - [`HeaderCmpResult::NotEqual`] if the headers are not equal.
-/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (Some IO error occurred).
+/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (the stream ended).
 pub(crate) fn cmp_header<R>(
 	reader: &mut R,
 	header_size: u32,
 	first_header_len: u32,
 	first_header_bytes: u32,
 	header_mask: u32,
-) -> HeaderCmpResult
+) -> std::io::Result<HeaderCmpResult>
 where
 	R: Read + Seek,
 {
 	// Read the next header and see if they are the same
-	let res = reader.seek(SeekFrom::Current(i64::from(
+	reader.seek(SeekFrom::Current(i64::from(
 		first_header_len.saturating_sub(header_size),
-	)));
-	if res.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	)))?;
 
-	let second_header_data = reader.read_u32::<BigEndian>();
-	if second_header_data.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	let second_header_data = match reader.read_u32::<BigEndian>() {
+		Ok(second_header_data) => second_header_data,
+		Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
+			return Ok(HeaderCmpResult::Undetermined);
+		},
+		Err(e) => return Err(e),
+	};
 
-	if reader.seek(SeekFrom::Current(-4)).is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	reader.seek(SeekFrom::Current(-4))?;
 
-	match second_header_data {
-		Ok(second_header_data)
-			if first_header_bytes & header_mask == second_header_data & header_mask =>
-		{
-			HeaderCmpResult::Equal
-		},
-		_ => HeaderCmpResult::NotEqual,
+	if first_header_bytes & header_mask == second_header_data & header_mask {
+		Ok(HeaderCmpResult::Equal)
+	} else {
+		Ok(HeaderCmpResult::NotEqual)
 	}
 }
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 1156101..e47c8a5 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -6,7 +6,7 @@ use crate::error::{FakeTagError, SizeMismatchError, TagParseError};
 use crate::id3::v2::header::Id3v2Header;
 use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v1, find_lyrics3v2};
-use crate::io::SeekStreamLen;
+use crate::io::{ReadExt, SeekStreamLen};
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::HEADER_MASK;
 
@@ -33,7 +33,7 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	while reader.read_exact_or_eof(&mut header)? {
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			//
@@ -225,13 +225,13 @@ where
 }
 
 // Searches for the next frame, comparing it to the following one
-fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
+fn find_next_frame<R>(reader: &mut R) -> std::io::Result<Option<(Header, u64)>>
 where
 	R: Read + Seek,
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_mp3_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_mp3_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_mp3_frame_start_absolute = pos + first_mp3_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -239,7 +239,7 @@ where
 		let first_header_data = reader.read_u32::<BigEndian>()?;
 
 		if let Some(first_header) = Header::read(first_header_data) {
-			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK) {
+			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((first_header, first_mp3_frame_start_absolute)));
 				},
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..5b56b4e 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -309,6 +309,9 @@ impl<T> FileLike for T where T: Read + Write + Seek + Truncate + Length {}
 pub(crate) trait ReadExt: Read {
 	/// Read a big-endian [`F80`] from the current position.
 	fn read_f80(&mut self) -> std::io::Result<F80>;
+
+	/// Fill `buf` from the current position, returning `false` if the stream ends early
+	fn read_exact_or_eof(&mut self, buf: &mut [u8]) -> std::io::Result<bool>;
 }
 
 impl<R> ReadExt for R
@@ -321,6 +324,14 @@ where
 
 		Ok(F80::from_be_bytes(bytes))
 	}
+
+	fn read_exact_or_eof(&mut self, buf: &mut [u8]) -> std::io::Result<bool> {
+		match self.read_exact(buf) {
+			Ok(()) => Ok(true),
+			Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(false),
+			Err(e) => Err(e),
+		}
+	}
 }
 
 #[derive(Copy, Clone, Debug, Default, PartialEq)]
-- 
2.43.0


From 9e27624b03d982cec3589fef8614269b82070e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 009/102] fix: do not take audio bytes for an ID3v2 tag when
 writing, and replace all leading tags

---
 lofty/src/id3/mod.rs          |  2 +-
 lofty/src/id3/v2/write/mod.rs | 34 +++++++++++++++++++++++++++++++---
 lofty/src/mpeg/mod.rs         |  2 +-
 lofty/src/mpeg/read.rs        | 12 ++++++++++++
 4 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 7f6ef97..5cbb035 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -232,7 +232,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..6ba012a 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -11,6 +11,7 @@ use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
+use crate::mpeg::read::find_first_frame_offset;
 use crate::util::io::FileLike;
 
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
@@ -73,12 +74,39 @@ where
 		}
 	}
 
+	let format = file.format();
 	let mut file = file.into_inner();
 
 	// `find_id3v2` will seek us to the end of the tag
-	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
-	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	let mut found_tag = find_id3v2(&mut file, FindId3v2Config::NO_READ_TAG)
+		.map_err(TagParseError::from)?
+		.0
+		.is_some();
+	if !found_tag && format == FileType::Mpeg {
+		// The tag may be preceded by junk, but never past the first frame, since that's the audio
+		let max_junk_bytes = write_options.parse_options.max_junk_bytes as u64;
+		let junk_window = match find_first_frame_offset(&mut file)? {
+			Some(offset) => std::cmp::min(offset, max_junk_bytes),
+			None => max_junk_bytes,
+		};
+
+		file.rewind()?;
+
+		let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
+		id3v2_config.allowed_junk_window = Some(junk_window);
+		found_tag = find_id3v2(&mut file, id3v2_config)
+			.map_err(TagParseError::from)?
+			.0
+			.is_some();
+	}
+
+	// When parsing, all of the leading tags are combined, so the new tag replaces them all
+	while found_tag {
+		found_tag = find_id3v2(&mut file, FindId3v2Config::NO_READ_TAG)
+			.map_err(TagParseError::from)?
+			.0
+			.is_some();
+	}
 
 	let mut file_bytes = Vec::new();
 	file.read_to_end(&mut file_bytes)?;
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..76af640 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -3,7 +3,7 @@ mod constants;
 pub mod error;
 pub(crate) mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index e47c8a5..83c0001 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -224,6 +224,18 @@ where
 	Ok(file)
 }
 
+// The offset of the first frame, if there is one
+pub(crate) fn find_first_frame_offset<R>(reader: &mut R) -> std::io::Result<Option<u64>>
+where
+	R: Read + Seek,
+{
+	match find_next_frame(reader) {
+		Ok(frame) => Ok(frame.map(|(_, offset)| offset)),
+		Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(None),
+		Err(e) => Err(e),
+	}
+}
+
 // Searches for the next frame, comparing it to the following one
 fn find_next_frame<R>(reader: &mut R) -> std::io::Result<Option<(Header, u64)>>
 where
-- 
2.43.0


From 2ce498c02f13cc316dc688c3379a5d413efdd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 010/102] fix: report I/O errors while looking for an ID3v2 tag

---
 lofty/src/id3/mod.rs | 49 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 5cbb035..a4302fc 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -214,30 +214,41 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
-	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
-		log::debug!("Found an ID3v2 tag, parsing");
-
-		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
-			reader.read_exact(&mut tag)?;
-
-			id3v2 = Some(tag)
-		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
-		}
-
-		if id3v2_header.flags.footer {
-			reader.seek(SeekFrom::Current(10))?;
-		}
-
-		header = Some(id3v2_header);
-	} else {
-		reader.seek(SeekFrom::Start(start))?;
+	match Id3v2Header::parse(reader) {
+		Ok(id3v2_header) => {
+			log::debug!("Found an ID3v2 tag, parsing");
+
+			if config.read {
+				let mut tag = try_vec![0; id3v2_header.size as usize]?;
+				reader.read_exact(&mut tag)?;
+
+				id3v2 = Some(tag)
+			} else {
+				reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			}
+
+			if id3v2_header.flags.footer {
+				reader.seek(SeekFrom::Current(10))?;
+			}
+
+			header = Some(id3v2_header);
+		},
+		// Only the absence of a (valid) tag is okay, not being able to look for one
+		Err(e) if is_io_failure(&e) => return Err(e),
+		Err(_) => {
+			reader.seek(SeekFrom::Start(start))?;
+		},
 	}
 
 	Ok(ID3FindResults(header, id3v2))
 }
 
+fn is_io_failure(error: &Id3v2ParseError) -> bool {
+	core::error::Error::source(error)
+		.and_then(|source| source.downcast_ref::<std::io::Error>())
+		.is_some_and(|e| e.kind() != std::io::ErrorKind::UnexpectedEof)
+}
+
 /// Searches for an ID3v2 tag in (potential) junk data between the start
 /// of the file and the first frame
 fn find_id3v2_in_junk<R>(reader: &mut R) -> Result<Option<u64>, Id3v2ParseError>
-- 
2.43.0


From b31510a355eb3ef1948b07602fe2fa1ba0659f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 011/102] fix: skip the footer of an ID3v2 tag when guessing
 the file type

---
 lofty/src/file/file_type.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..939e2b5 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -292,9 +292,13 @@ impl FileType {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					let mut size = u32::from_be_bytes(arr).unsynch();
+					if buf[3] != 2 && buf[5] & 0x10 == 0x10 {
+						// The size doesn't include the footer
+						size += 10;
+					}
+
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
-- 
2.43.0


From b26dee165eb28b35d44b22f1f4d11a7be714d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 012/102] fix: read the extended header of ID3v2.3 and 2.4 tags
 by their layouts

---
 lofty/src/id3/mod.rs       |   4 +-
 lofty/src/id3/v2/header.rs | 137 ++++++++++++++++++++++++++++---------
 lofty/src/id3/v2/read.rs   |   2 +-
 lofty/src/mpeg/read.rs     |   2 +-
 4 files changed, 109 insertions(+), 36 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index a4302fc..a0cab50 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -219,12 +219,12 @@ where
 			log::debug!("Found an ID3v2 tag, parsing");
 
 			if config.read {
-				let mut tag = try_vec![0; id3v2_header.size as usize]?;
+				let mut tag = try_vec![0; id3v2_header.content_size() as usize]?;
 				reader.read_exact(&mut tag)?;
 
 				id3v2 = Some(tag)
 			} else {
-				reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+				reader.seek(SeekFrom::Current(i64::from(id3v2_header.content_size())))?;
 			}
 
 			if id3v2_header.flags.footer {
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..dc9a491 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -150,26 +150,25 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
-				// In ID3v2.3, the extended header is considered separate from the frame header, and
-				// thus subject to unsynchronization
-				Id3v2Version::V3 => {
-					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
-					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
-				},
-				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
-				_ => unreachable!(),
+			// In ID3v2.3, the extended header is considered separate from the frame header, and
+			// thus subject to unsynchronization
+			//
+			// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
+			let mut reader = ExtendedHeaderReader {
+				reader: bytes,
+				unsynchronisation: version == Id3v2Version::V3 && flags_parsed.unsynchronisation,
+				last_byte: 0,
+				limit: size,
+				consumed: 0,
+			};
+
+			if version == Id3v2Version::V3 {
+				read_extended_header_v3(&mut reader, &mut flags_parsed)?;
+			} else {
+				read_extended_header_v4(&mut reader, &mut flags_parsed)?;
 			}
+
+			extended_size = reader.consumed;
 		}
 
 		if extended_size > 0 && extended_size >= size {
@@ -184,25 +183,97 @@ impl Id3v2Header {
 		})
 	}
 
+	/// The size of the frames and padding, what's left of the tag after the extended header
+	pub(crate) fn content_size(&self) -> u32 {
+		self.size - self.extended_size
+	}
+
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
 	}
 }
 
-fn read_extended_header<R: Read>(
-	reader: &mut R,
+/// Reads the extended header, keeping track of the number of bytes it occupies in the stream
+struct ExtendedHeaderReader<'a, R> {
+	reader: &'a mut R,
+	unsynchronisation: bool,
+	last_byte: u8,
+	limit: u32,
+	consumed: u32,
+}
+
+impl<R: Read> ExtendedHeaderReader<'_, R> {
+	fn read_byte(&mut self) -> Result<u8, Id3v2ParseError> {
+		if self.consumed >= self.limit {
+			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+		}
+
+		let byte = self.reader.read_u8()?;
+		self.consumed += 1;
+
+		if self.unsynchronisation && self.last_byte == 0xFF && byte == 0 {
+			self.last_byte = 0;
+			return self.read_byte();
+		}
+
+		self.last_byte = byte;
+		Ok(byte)
+	}
+
+	fn read_u32(&mut self) -> Result<u32, Id3v2ParseError> {
+		let mut ret = 0;
+		for _ in 0..4 {
+			ret = (ret << 8) | u32::from(self.read_byte()?);
+		}
+
+		Ok(ret)
+	}
+
+	fn skip(&mut self, count: u32) -> Result<(), Id3v2ParseError> {
+		for _ in 0..count {
+			self.read_byte()?;
+		}
+
+		Ok(())
+	}
+}
+
+fn read_extended_header_v3<R: Read>(
+	reader: &mut ExtendedHeaderReader<'_, R>,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
 ) -> Result<(), Id3v2ParseError> {
+	// Excludes the size field itself
+	let header_size = reader.read_u32()?;
+	if header_size < 6 {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+	}
+
+	// The only flag available in ID3v2.3 is the CRC, we don't care about its value or the padding size
+	flags.crc = reader.read_byte()? & 0x80 == 0x80;
+	reader.skip(header_size - 1)
+}
+
+fn read_extended_header_v4<R: Read>(
+	reader: &mut ExtendedHeaderReader<'_, R>,
+	flags: &mut Id3v2TagFlags,
+) -> Result<(), Id3v2ParseError> {
+	// Includes the size field itself
+	let header_size = reader.read_u32()?.unsynch();
 	if header_size < 6 {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
 	// Useless byte since there's only 1 byte for flags
-	let _num_flag_bytes = reader.read_u8()?;
+	let _num_flag_bytes = reader.read_byte()?;
+
+	let extended_flags = reader.read_byte()?;
 
-	let extended_flags = reader.read_u8()?;
+	if extended_flags & 0x40 == 0x40 {
+		// The tag is an update, we don't care, this only has a length byte
+		let data_length = reader.read_byte()?;
+		reader.skip(u32::from(data_length))?;
+	}
 
 	// The only flags we care about here are the CRC and restrictions
 
@@ -210,16 +281,18 @@ fn read_extended_header<R: Read>(
 		flags.crc = true;
 
 		// We don't care about the existing CRC (5) or its length byte (1)
-		let mut crc = [0; 6];
-		reader.read_exact(&mut crc)?;
+		reader.skip(6)?;
 	}
 
 	if extended_flags & 0x10 == 0x10 {
 		// We don't care about the length byte, it is always 1
-		let _data_length = reader.read_u8()?;
-
-		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
+		let _data_length = reader.read_byte()?;
+		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_byte()?));
 	}
 
-	Ok(())
+	let Some(remaining) = header_size.checked_sub(reader.consumed) else {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+	};
+
+	reader.skip(remaining)
 }
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..b892464 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -24,7 +24,7 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.size - header.extended_size));
+	let mut tag_bytes = bytes.take(u64::from(header.content_size()));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 83c0001..cfd1a30 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -59,7 +59,7 @@ where
 					}
 					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From 338ddc8548b4b24f14ab65747284b6c16f4693df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 013/102] fix: skip ID3v2 tags in AAC files when not reading
 tags, and footers of duplicate tags

---
 lofty/src/aac/read.rs  | 6 ++++--
 lofty/src/mpeg/read.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 9f13103..82cb16b 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -67,9 +67,11 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
+				} else {
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index cfd1a30..8e2165b 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -55,9 +55,9 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
 					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
-- 
2.43.0


From 89401d175bef2128e99e22296e929f6f157282bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 014/102] fix: find a leading APE tag behind several ID3v2 tags

---
 lofty/src/ape/tag/write.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 96eff01..2817508 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -65,7 +65,11 @@ where
 	F: FileLike,
 {
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
-	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
+	while find_id3v2(file, FindId3v2Config::NO_READ_TAG)
+		.map_err(TagParseError::from)?
+		.0
+		.is_some()
+	{}
 
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
-- 
2.43.0


From ff56bbd7a381cdf180d5610301c0728f27d73076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 015/102] fix: compute the length of MPEG layer 1 frames in
 whole slots

---
 lofty/src/mpeg/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 6cd3c0a..fd2d06b 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -309,8 +309,11 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+		// Frames are made up of slots, which are 4 bytes in layer 1, and 1 byte otherwise
+		let slot_size = u32::from(PADDING_SIZES[layer_index]);
+		let slots =
+			u32::from(header.samples) * header.bitrate * 125 / (header.sample_rate * slot_size);
+		header.len = (slots * slot_size) + padding;
 
 		Some(header)
 	}
-- 
2.43.0


From 3a87f9ee81dbb11731651bfa10b98eeb134b78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 016/102] fix: keep chunk sizes right when writing ID3v2 tags
 to WAV and AIFF files

---
 lofty/src/id3/v2/write/chunk_file.rs | 36 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..1866a88 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -82,7 +82,7 @@ where
 
 	let mut file_context =
 		find_existing_id3v2_tag::<_, B>(&mut file, file_len, format, write_options.parse_options)?;
-	if let Some(existing_id3_tag) = file_context.existing_id3_tag.clone() {
+	if let [existing_id3_tag] = file_context.existing_id3_tags.as_slice() {
 		let existing_tag_len = existing_id3_tag.end - existing_id3_tag.start;
 
 		// We can just overwrite tags at the end of the file
@@ -102,13 +102,14 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
 			// Update RIFF chunk size
+			let stream_size = stream_size(updated_stream_len)?;
 			file.seek(SeekFrom::Start(4))?;
-			file.write_u32::<B>((updated_stream_len as u32) - IFF_CHUNK_HEADER_SIZE)?;
+			file.write_u32::<B>(stream_size)?;
 
 			return Ok(());
 		}
@@ -140,13 +141,13 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				file.write_u32::<B>((remainder as u32) - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
 
 		log::debug!("Existing ID3v2 tag too small to overwrite, rewriting whole file");
-	} else if tag.is_empty() {
+	} else if tag.is_empty() && file_context.existing_id3_tags.is_empty() {
 		log::debug!("No tag to overwrite, nothing to do");
 		return Ok(());
 	}
@@ -165,7 +166,7 @@ where
 		tag_bytes.iter().copied(),
 	);
 
-	if let Some(existing_id3_tag) = file_context.existing_id3_tag {
+	for existing_id3_tag in file_context.existing_id3_tags.into_iter().rev() {
 		file_context.stream_length -= existing_id3_tag.end - existing_id3_tag.start;
 		file_bytes
 			.get_mut()
@@ -176,7 +177,7 @@ where
 
 	// Update RIFF chunk size
 	file_bytes.seek(SeekFrom::Start(4))?;
-	file_bytes.write_u32::<B>((file_context.stream_length as u32) - IFF_CHUNK_HEADER_SIZE)?;
+	file_bytes.write_u32::<B>(stream_size(file_context.stream_length)?)?;
 
 	file.rewind()?;
 	file.truncate(0)?;
@@ -185,9 +186,16 @@ where
 	Ok(())
 }
 
+/// The size to write in the header of the first chunk
+fn stream_size(stream_length: u64) -> Result<u32, FileEncodingError> {
+	u32::try_from(stream_length - u64::from(IFF_CHUNK_HEADER_SIZE))
+		.map_err(|_| TagEncodingError::new(TagType::Id3v2, TooMuchDataError.into()).into())
+}
+
 struct IffFileContext {
 	stream_length: u64,
-	existing_id3_tag: Option<Range<u64>>,
+	// In the order they appear in the file
+	existing_id3_tags: Vec<Range<u64>>,
 }
 
 fn find_existing_id3v2_tag<F, B: ByteOrder>(
@@ -213,7 +221,7 @@ where
 
 	let actual_stream_size = u64::from(first_chunk.size()) + u64::from(IFF_CHUNK_HEADER_SIZE);
 
-	if file_len < actual_stream_size {
+	if file_len < actual_stream_size || actual_stream_size < FIRST_CHUNK_LEN {
 		return Err(SizeMismatchError.into());
 	}
 
@@ -226,16 +234,13 @@ where
 
 	let mut context = IffFileContext {
 		stream_length: actual_stream_size,
-		existing_id3_tag: None,
+		existing_id3_tags: Vec::new(),
 	};
 
 	let file = chunks.into_inner();
 	file.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
-	let mut chunks = Chunks::<_, B>::new(
-		file,
-		context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE),
-	);
+	let mut chunks = Chunks::<_, B>::new(file, context.stream_length - FIRST_CHUNK_LEN);
 	while let Some(chunk) = chunks
 		.next(parse_options.parsing_mode)
 		.map_err(|e| handle_chunk_error(format, e))?
@@ -255,8 +260,7 @@ where
 				"Found existing ID3v2 chunk, size: {} bytes",
 				chunk_end - chunk_start
 			);
-			context.existing_id3_tag = Some(chunk_start..chunk_end);
-			break;
+			context.existing_id3_tags.push(chunk_start..chunk_end);
 		}
 	}
 
-- 
2.43.0


From b10789472f11527ceb8bdc33471530b19bd709b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 017/102] fix: replace RIFF INFO lists along with their padding

---
 lofty/src/iff/wav/tag/write.rs | 108 ++++++++++++++-------------------
 1 file changed, 47 insertions(+), 61 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..a448b7e 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,8 +13,12 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
-use byteorder::{LittleEndian, WriteBytesExt};
+use byteorder::LittleEndian;
+
+// The first chunk format is RIFF....WAVE
+const FIRST_CHUNK_LEN: u32 = IFF_CHUNK_HEADER_SIZE + 4;
 
 // TODO: Write JUNK chunk for padding
 pub(in crate::iff::wav) fn write_riff_info<'a, F, I>(
@@ -26,9 +30,6 @@ where
 	F: FileLike,
 	I: Iterator<Item = (&'a str, Cow<'a, str>)>,
 {
-	// The first chunk format is RIFF....WAVE
-	const FIRST_CHUNK_LEN: u32 = IFF_CHUNK_HEADER_SIZE + 4;
-
 	let mut file = file.into_inner();
 	let original_stream_length = verify_wav(&mut file).map_err(FileParseError::from)?;
 
@@ -41,84 +42,67 @@ where
 	file.read_to_end(file_bytes.get_mut())?;
 
 	// File is lying about its length
-	if file_bytes.get_ref().len() < (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize {
+	if (file_bytes.get_ref().len() as u64)
+		< u64::from(original_stream_length) + u64::from(IFF_CHUNK_HEADER_SIZE)
+	{
+		return Err(SizeMismatchError.into());
+	}
+
+	if original_stream_length < FIRST_CHUNK_LEN - IFF_CHUNK_HEADER_SIZE {
 		return Err(SizeMismatchError.into());
 	}
 
 	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let info_lists = find_info_lists(
 		&mut file_bytes,
-		u64::from(original_stream_length - 4),
+		u64::from(original_stream_length - (FIRST_CHUNK_LEN - IFF_CHUNK_HEADER_SIZE)),
 		write_options.parse_options.parsing_mode,
 	)
-	.map_err(FileParseError::from)?
-	else {
-		// Simply append the info list to the end of the file and update the file size
+	.map_err(FileParseError::from)?;
 
-		let new_stream_length = riff_info_bytes.len() as u64 + u64::from(original_stream_length);
-		if new_stream_length > u64::from(u32::MAX) {
-			return Err(TooMuchDataError.into());
-		}
+	// Replace the first list, or append to the end of the stream if there are none
+	let stream_end = original_stream_length as usize + IFF_CHUNK_HEADER_SIZE as usize;
+	let tag_position = info_lists
+		.first()
+		.map_or(stream_end, |info_list| info_list.start as usize);
 
-		file_bytes.rewind()?;
+	let removed_length = info_lists
+		.iter()
+		.map(|info_list| info_list.end - info_list.start)
+		.sum::<u64>();
 
-		let tag_position = (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize;
-		file_bytes.seek(SeekFrom::Start(tag_position as u64))?;
-
-		file_bytes
-			.get_mut()
-			.splice(tag_position..tag_position, riff_info_bytes.iter().copied());
-
-		file_bytes.seek(SeekFrom::Start(4))?;
-		file_bytes.write_u32::<LittleEndian>(new_stream_length as u32)?;
-
-		file.rewind()?;
-		file.truncate(0)?;
-		file.write_all(file_bytes.get_ref())?;
-
-		return Ok(());
-	};
-
-	// Replace the existing tag
-
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
-	let original_info_list = info_list_start..info_list_end;
-
-	let new_stream_length = riff_info_bytes.len() as u64
-		+ (u64::from(original_stream_length) - original_info_list.len() as u64);
+	let new_stream_length =
+		riff_info_bytes.len() as u64 + (u64::from(original_stream_length) - removed_length);
 	if new_stream_length > u64::from(u32::MAX) {
 		return Err(TooMuchDataError.into());
 	}
 
-	let _ = file_bytes
-		.get_mut()
-		.splice(original_info_list, riff_info_bytes);
+	let file_bytes = file_bytes.get_mut();
+	for info_list in info_lists.into_iter().rev() {
+		file_bytes.drain(info_list.start as usize..info_list.end as usize);
+	}
 
-	let _ = file_bytes
-		.get_mut()
-		.splice(4..8, (new_stream_length as u32).to_le_bytes());
+	file_bytes.splice(tag_position..tag_position, riff_info_bytes);
+	file_bytes[4..8].copy_from_slice(&(new_stream_length as u32).to_le_bytes());
 
 	file.rewind()?;
 	file.truncate(0)?;
-	file.write_all(file_bytes.get_ref())?;
+	file.write_all(file_bytes)?;
 
 	Ok(())
 }
 
-fn find_info_list<R>(
+/// Find all of the `INFO` lists, in the order they appear in the file
+fn find_info_lists<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Vec<Range<u64>>, WavParseError>
 where
 	R: Read + Seek,
 {
-	let mut info = None;
+	let mut info_lists = Vec::new();
 
 	let mut chunks = Chunks::<_, LittleEndian>::new(data, file_size);
 	while let Some(mut chunk) = chunks.next(parse_mode)? {
@@ -137,19 +121,25 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
-			break;
+			// Need to add FIRST_CHUNK_LEN since we started the chunk reader at that offset
+			let start = chunk.start() + u64::from(FIRST_CHUNK_LEN);
+
+			// The list may be followed by a padding byte, which has to go along with it
+			chunks.skip()?;
+			let end = chunks.stream_position() + u64::from(FIRST_CHUNK_LEN);
+
+			info_lists.push(start..end);
 		}
 	}
 
-	Ok(info)
+	Ok(info_lists)
 }
 
 pub(super) fn create_riff_info(
 	items: &mut dyn Iterator<Item = (&str, Cow<'_, str>)>,
 	bytes: &mut Vec<u8>,
 ) -> Result<(), RiffInfoListEncodingError> {
-	let mut items = items.peekable();
+	let mut items = items.filter(|(_, v)| !v.is_empty()).peekable();
 
 	if items.peek().is_none() {
 		log::debug!("No items to write, removing RIFF INFO list");
@@ -158,10 +148,6 @@ pub(super) fn create_riff_info(
 
 	bytes.extend(b"LIST\0\0\0\0INFO");
 	for (k, v) in items {
-		if v.is_empty() {
-			continue;
-		}
-
 		let val_b = v.as_bytes();
 		// Account for null terminator
 		let len = val_b.len() + 1;
-- 
2.43.0


From 3be73b50b9a009a3c6a5d9deda7efec5edc3763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 018/102] fix: skip the padding between AIFF comments

---
 lofty/src/iff/aiff/read.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lofty/src/iff/aiff/read.rs b/lofty/src/iff/aiff/read.rs
index f83013a..05599f7 100644
--- a/lofty/src/iff/aiff/read.rs
+++ b/lofty/src/iff/aiff/read.rs
@@ -122,7 +122,7 @@ where
 				{
 					let num_comments = chunk.read_u16::<BigEndian>()?;
 
-					for _ in 0..num_comments {
+					for i in 0..num_comments {
 						let timestamp = chunk.read_u32::<BigEndian>()?;
 						let marker_id = chunk.read_u16::<BigEndian>()?;
 						let size = chunk.read_u16::<BigEndian>()?;
@@ -133,7 +133,13 @@ where
 							timestamp,
 							marker_id,
 							text,
-						})
+						});
+
+						// The text is padded to an even length, except that the last one may rely on
+						// the padding of the chunk
+						if !size.is_multiple_of(2) && i + 1 < num_comments {
+							let _padding = chunk.read_u8()?;
+						}
 					}
 
 					Ok(())
-- 
2.43.0


From 8f2a00473851ba48a859e935c94dcaf18b07e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 019/102] fix: do not overflow on odd JPEG sections

---
 lofty/src/picture/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..afe7026 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -471,12 +471,16 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 8500bcd0af2668557e2e66e804e053075f13f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 020/102] fix: grayscale PNGs with alpha have two samples per
 pixel

---
 lofty/src/picture/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index afe7026..96abb7c 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -370,7 +370,8 @@ impl PictureInformation {
 
 		match color_type {
 			2 => color_depth *= 3,
-			4 | 6 => color_depth *= 4,
+			4 => color_depth *= 2,
+			6 => color_depth *= 4,
 			_ => {},
 		}
 
-- 
2.43.0


From 780b79f72cd08459dddfbf357090c68adf44b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 021/102] fix: leave other logical streams and trailing data of
 OGG files alone when writing

---
 lofty/src/ogg/tag/write.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..00ab3d3 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -121,8 +121,18 @@ where
 
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
+	let mut pages_end = 0;
 	let mut idx = 0;
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
+		let page_start = pages_end;
+		pages_end = pages_reader.position() as usize;
+
+		// Each logical stream in the file has its own numbering
+		if page.header().stream_serial != stream_serial {
+			file.write_all(&remaining_file_content[page_start..pages_end])?;
+			continue;
+		}
+
 		let header = page.header_mut();
 		header.sequence_number = pages_written + idx;
 		page.gen_crc();
@@ -131,6 +141,9 @@ where
 		idx += 1;
 	}
 
+	// Anything that isn't a page is left as is
+	file.write_all(&remaining_file_content[pages_end..])?;
+
 	Ok(())
 }
 
-- 
2.43.0


From 8df60f9220d73adf67c7b465be3afc1a7ec713f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 022/102] fix: keep MP4 atom sizes and media offsets right when
 writing, and skip extended atoms correctly

---
 lofty/src/mp4/atom_info.rs  |  25 +++++-
 lofty/src/mp4/ilst/read.rs  |   2 +-
 lofty/src/mp4/ilst/write.rs | 148 ++++++++++++++++++------------------
 lofty/src/mp4/moov.rs       |  66 +++++++++++-----
 lofty/src/mp4/properties.rs |  34 +++++----
 lofty/src/mp4/read/mod.rs   |  44 +++++------
 lofty/src/mp4/write.rs      |  27 +++++--
 7 files changed, 203 insertions(+), 143 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..78756cc 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -12,6 +12,8 @@ use byteorder::{BigEndian, ReadBytesExt};
 
 pub(super) const FOURCC_LEN: u64 = 4;
 pub(super) const IDENTIFIER_LEN: u64 = 4;
+/// The length of the 64-bit size following the identifier of an extended atom
+pub(super) const EXTENDED_LEN: u64 = 8;
 pub(super) const ATOM_HEADER_LEN: u64 = FOURCC_LEN + IDENTIFIER_LEN;
 
 /// Represents an `MP4` atom identifier
@@ -190,14 +192,21 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				// `len` includes the size and the identifier
+				(end.saturating_sub(start), false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = if extended {
+			ATOM_HEADER_LEN + EXTENDED_LEN
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
@@ -246,12 +255,22 @@ impl AtomInfo {
 		}))
 	}
 
+	/// The offset of the atom's content from the start of the file
+	pub(crate) fn content_start(&self) -> u64 {
+		self.start + self.header_size()
+	}
+
+	/// The offset of the end of the atom from the start of the file
+	pub(crate) fn end(&self) -> u64 {
+		self.start + self.len
+	}
+
 	pub(crate) fn header_size(&self) -> u64 {
 		if !self.extended {
 			return ATOM_HEADER_LEN;
 		}
 
-		ATOM_HEADER_LEN + 8
+		ATOM_HEADER_LEN + EXTENDED_LEN
 	}
 }
 
diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a07f9ea..a2da780 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -294,7 +294,7 @@ where
 			let remaining_atom_len = next_atom.len - (ATOM_HEADER_LEN + 1);
 
 			reader.seek(SeekFrom::Current(remaining_atom_len as i64))?;
-			pos += remaining_atom_len;
+			pos += next_atom.len;
 			continue;
 		};
 
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..294ab6a 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -66,20 +66,15 @@ where
 		moov_len
 	);
 
-	let mut moov_data_start = moov_start + ATOM_HEADER_LEN;
-	if moov_extended {
-		moov_data_start += 8;
-	}
-
 	let mut write_handle = atom_writer.start_write();
-	write_handle.seek(SeekFrom::Start(moov_data_start))?;
+	write_handle.seek(SeekFrom::Start(moov.info.content_start()))?;
 
 	let ilst = build_ilst(&mut tag.atoms, write_options).map_err(TagEncodingError::from)?;
 	let remove_tag = ilst.is_empty();
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_len - moov.info.header_size(),
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +103,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.len - udta.header_size(),
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -127,8 +122,6 @@ where
 					meta.len
 				);
 
-				// We may encounter a non-full `meta` atom
-				meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)?;
 				drop(write_handle);
 
 				// We can use the existing `udta` and `meta` atoms
@@ -163,6 +156,10 @@ where
 					bytes = meta_writer.into_contents();
 				}
 
+				// We'll put the new `meta` atom right at the start of `udta`
+				let meta_start_pos = udta.content_start();
+				update_offsets(&atom_writer, moov, bytes.len() as i64, meta_start_pos)?;
+
 				write_handle = atom_writer.start_write();
 
 				new_udta_size = udta.len + bytes.len() as u64;
@@ -170,8 +167,7 @@ where
 				write_handle.seek(SeekFrom::Start(udta.start))?;
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
+				let meta_start_pos = meta_start_pos as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -182,12 +178,18 @@ where
 	} else {
 		log::trace!("No `udta` atom found, creating one");
 
+		drop(write_handle);
+
 		// We have to create the `udta` atom
 		let bytes = create_udta(&ilst, write_options)?;
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		let udta_pos = moov.info.content_start();
+		update_offsets(&atom_writer, moov, bytes.len() as i64, udta_pos)?;
+
+		let udta_pos = udta_pos as usize;
+		write_handle = atom_writer.start_write();
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
@@ -227,26 +229,29 @@ fn save_to_existing(
 	let range;
 
 	let mut write_handle = writer.start_write();
+	write_handle.seek(SeekFrom::Start(meta.content_start()))?;
 
-	let (ilst_idx, tree) = atom_tree(
-		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
-		b"ilst",
-		write_options.parse_options.parsing_mode,
-	)
-	.map_err(Into::<FileParseError>::into)?;
+	let mut meta_content_len = meta.len - meta.header_size();
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
+	// We may encounter a non-full `meta` atom
+	let meta_has_children = meta_content_len >= ATOM_HEADER_LEN;
+	if meta_has_children && meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)? {
+		meta_content_len -= 4;
+	}
 
-		replacement = ilst;
-		range = meta_end..meta_end;
+	let (ilst_idx, tree) = if meta_has_children {
+		atom_tree(
+			&mut write_handle,
+			meta_content_len,
+			b"ilst",
+			write_options.parse_options.parsing_mode,
+		)
+		.map_err(Into::<FileParseError>::into)?
 	} else {
+		(None, Vec::new())
+	};
+
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -321,6 +326,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = meta.end() as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
@@ -416,9 +431,10 @@ where
 
 	// Otherwise, we'll have to just pad the default amount,
 	// and update the offsets.
-	write_free_atom(writer, preferred_padding.get())?;
-	atom_size_difference += i64::from(preferred_padding.get());
-	padding_size = u64::from(preferred_padding.get());
+	let preferred_padding = preferred_padding.get().max(ATOM_HEADER_LEN as u32);
+	write_free_atom(writer, preferred_padding)?;
+	atom_size_difference += i64::from(preferred_padding);
+	padding_size = u64::from(preferred_padding);
 
 	Ok((atom_size_difference, padding_size))
 }
@@ -447,16 +463,8 @@ fn update_offsets(
 	for stco in moov.find_all_children(*b"stco", true) {
 		log::trace!("Found `stco` atom");
 
-		let stco_start = stco.start;
-		if stco.extended {
-			return Err(FileParseError::from(AtomParseError::message(
-				Some(stco.ident.clone()),
-				"found an extended `stco` atom",
-			))
-			.into());
-		}
-
-		write_handle.seek(SeekFrom::Start(stco_start + ATOM_HEADER_LEN + 4))?;
+		// Skip version (1) + flags (3)
+		write_handle.seek(SeekFrom::Start(stco.content_start() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
@@ -478,7 +486,8 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		// Skip version (1) + flags (3)
+		write_handle.seek(SeekFrom::Start(co64.content_start() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
@@ -497,44 +506,35 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
+	for moof in writer.find_contextual_atoms(*b"moof") {
+		log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
 
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
+		// 64-bit offsets
+		for tfhd in moof.find_all_children(*b"tfhd", true) {
+			log::trace!("Found `tfhd` atom");
 
-	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
-		log::trace!("Found `tfhd` atom");
-
-		let tfhd_start = tfhd.start;
-		if tfhd.extended {
-			return Err(FileParseError::from(AtomParseError::message(
-				Some(tfhd.ident.clone()),
-				"found an extended `tfhd` atom",
-			))
-			.into());
-		}
+			// Skip version (1)
+			write_handle.seek(SeekFrom::Start(tfhd.content_start() + 1))?;
 
-		// Skip atom header + version (1)
-		write_handle.seek(SeekFrom::Start(tfhd_start + ATOM_HEADER_LEN + 1))?;
+			let flags = write_handle.read_u24::<BigEndian>()?;
+			let base_data_offset = (flags & 0b1) != 0;
 
-		let flags = write_handle.read_u24::<BigEndian>()?;
-		let base_data_offset = (flags & 0b1) != 0;
+			if base_data_offset {
+				let _track_id = write_handle.read_u32::<BigEndian>()?;
 
-		if base_data_offset {
-			let read_offset = write_handle.read_u64::<BigEndian>()?;
-			if read_offset < ilst_offset {
-				continue;
-			}
+				let read_offset = write_handle.read_u64::<BigEndian>()?;
+				if read_offset < ilst_offset {
+					continue;
+				}
 
-			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+				write_handle.seek(SeekFrom::Current(-8))?;
+				write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+				log::trace!(
+					"Updated offset from {read_offset} to {}",
+					((read_offset as i64) + difference) as u64
+				);
+			}
 		}
 	}
 
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..3c19897 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -1,4 +1,4 @@
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo};
 use super::ilst::Ilst;
 use super::ilst::read::parse_ilst;
 use super::read::{AtomReader, find_child_atom, meta_is_full, skip_atom};
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -50,16 +50,27 @@ impl Moov {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
-						{
-							skip_atom(reader, mdia.extended, mdia.len)?;
+						let content_len = atom.len - atom.header_size();
+						if let Some(mdia) = find_child_atom(
+							reader,
+							content_len,
+							*b"mdia",
+							parse_options.parsing_mode,
+						)? {
 							traks.push(mdia);
 						}
+
+						// There may be more atoms after `mdia`
+						seek_to_end_of_atom(reader, &atom)?;
 					},
 					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
+						let content_len = atom.len - atom.header_size();
+						let ilst_parsed = ilst_from_udta(reader, parse_options, content_len)
 							.map_err(TagParseError::from)?;
+
+						// There may be more atoms after `meta`
+						seek_to_end_of_atom(reader, &atom)?;
+
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
 								ilst = Some(ilst_parsed);
@@ -87,6 +98,19 @@ impl Moov {
 	}
 }
 
+/// Seeks to the end of `atom`, after having read some of its content
+fn seek_to_end_of_atom<R>(reader: &mut AtomReader<R>, atom: &AtomInfo) -> std::io::Result<()>
+where
+	R: Read + Seek,
+{
+	let pos = reader.stream_position()?;
+	if pos < atom.end() {
+		reader.seek(SeekFrom::Current((atom.end() - pos) as i64))?;
+	}
+
+	Ok(())
+}
+
 fn ilst_from_udta<R>(
 	reader: &mut AtomReader<R>,
 	parse_options: ParseOptions,
@@ -95,26 +119,27 @@ fn ilst_from_udta<R>(
 where
 	R: Read + Seek,
 {
-	let mut read = 8;
+	let mut remaining = len;
 	let mut found_meta = false;
-	let mut meta_atom_size = 0;
+	let mut meta_content_size = 0;
 
-	while read < len {
+	// NOTE: In QuickTime files, `udta` may end with a 32-bit zero
+	while remaining >= ATOM_HEADER_LEN {
 		let Some(atom) = reader.next()? else {
 			break;
 		};
 
 		if atom.ident == AtomIdent::Fourcc(*b"meta") {
 			found_meta = true;
-			meta_atom_size = atom.len;
+			meta_content_size = atom.len - atom.header_size();
 			break;
 		}
 
-		read += atom.len;
+		remaining = remaining.saturating_sub(atom.len);
 		skip_atom(reader, atom.extended, atom.len)?;
 	}
 
-	if !found_meta {
+	if !found_meta || meta_content_size < ATOM_HEADER_LEN {
 		return Ok(None);
 	}
 
@@ -122,32 +147,31 @@ where
 	// so we have to check for that case
 	let full_meta_atom = meta_is_full(reader)?;
 
+	remaining = meta_content_size;
 	if full_meta_atom {
-		read = 12;
-	} else {
-		read = 8;
+		remaining -= 4;
 	}
 
 	let mut found_ilst = false;
-	let mut ilst_atom_size = 0;
+	let mut ilst_content_size = 0;
 
-	while read < meta_atom_size {
+	while remaining >= ATOM_HEADER_LEN {
 		let Some(atom) = reader.next()? else {
 			break;
 		};
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_content_size = atom.len - atom.header_size();
 			break;
 		}
 
-		read += atom.len;
+		remaining = remaining.saturating_sub(atom.len);
 		skip_atom(reader, atom.extended, atom.len)?;
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_content_size).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..8145236 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -307,9 +307,9 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.content_start()))?;
 
-		let mut read = 8;
+		let mut read = mdia.header_size();
 		while read < mdia.len {
 			let Some(atom) = reader.next()? else { break };
 
@@ -322,7 +322,7 @@ where
 						mdhd = Some(atom)
 					},
 					b"hdlr" => {
-						if atom.len < 20 {
+						if atom.len - atom.header_size() < 12 {
 							log::warn!("Incomplete 'hdlr' atom, skipping");
 							skip_atom(reader, atom.extended, atom.len)?;
 							continue;
@@ -340,7 +340,10 @@ where
 
 						skip_atom(reader, atom.extended, atom.len - 12)?;
 					},
-					b"minf" => minf = Some(atom),
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
+					},
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
@@ -493,7 +496,7 @@ impl Minf {
 			let mut stsd_data = None;
 			let mut stts = None;
 
-			let mut read = 8;
+			let mut read = stbl.header_size();
 			while read < stbl.len {
 				let Some(atom) = reader.next()? else { break };
 
@@ -509,7 +512,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; (atom.len - atom.header_size()) as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -608,14 +611,13 @@ where
 			// 16.16 fixed point number
 			properties.sample_rate = Some(reader.read_u32()? >> 16);
 
-			let mut offset = reader.stream_position()?;
 			if stsd_version == 1 {
 				// Skipping 16 bytes
 				// Samples per packet (4)
 				// Bytes per packet (4)
 				// Bytes per frame (4)
 				// Bytes per sample (4)
-				offset = reader.seek(SeekFrom::Current(16))?;
+				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
 				let extension_struct_size = reader.read_u32()?;
 
@@ -628,7 +630,7 @@ where
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
 				// Struct size (variable)
-				offset = reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
 			}
 
 			match descriptor_format {
@@ -645,8 +647,7 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
-						.map_err(|e| e.with_ident(atom.ident))?;
+					reader.seek(SeekFrom::Start(atom.end()))?;
 					continue;
 				},
 				_ => {
@@ -654,7 +655,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(atom.end()))?;
 					continue;
 				},
 			}
@@ -682,7 +683,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.content_start()))?;
 	let Mdhd {
 		timescale,
 		duration,
@@ -701,8 +702,9 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	reader.seek(SeekFrom::Start(minf_info.content_start()))?;
+	let minf_content_len = minf_info.len - minf_info.header_size();
+	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_content_len, parse_mode)? else {
 		return Ok(properties);
 	};
 
@@ -1029,7 +1031,7 @@ where
 
 	while let Ok(Some(atom)) = reader.next() {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.len - atom.header_size());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..07d4247 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo, EXTENDED_LEN};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -61,7 +61,10 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	reader.reset_bounds(
+		moov_info.content_start(),
+		moov_info.len - moov_info.header_size(),
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,27 +100,26 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
-
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
+	let mut header_len = ATOM_HEADER_LEN;
+	if extended {
+		header_len += EXTENDED_LEN;
 	}
 
-	let pos = reader.stream_position()?;
+	let content_len = len.saturating_sub(header_len);
+	log::trace!("Attempting to skip {content_len} bytes");
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(content_len) = i64::try_from(content_len) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	reader.seek(SeekFrom::Current(content_len))?;
 
 	Ok(())
 }
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the parent atom's content
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -130,7 +132,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -151,21 +153,21 @@ where
 }
 
 // Creates a tree of nested atoms
+//
+// Returns the index of the last `up_to` atom, if there are any
 pub(super) fn atom_tree<R>(
 	reader: &mut R,
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -174,18 +176,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
 			if fourcc == up_to {
-				found_idx = i;
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
@@ -207,7 +205,7 @@ where
 	reader.read_exact(&mut possible_ident)?;
 
 	match &possible_ident {
-		b"hdlr" | b"ilst" | b"mhdr" | b"ctry" | b"lang" => {
+		b"hdlr" | b"ilst" | b"mhdr" | b"ctry" | b"lang" | b"free" => {
 			log::warn!("File contains a non-full 'meta' atom");
 
 			reader.seek(SeekFrom::Current(-8))?;
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..1449dc6 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -1,6 +1,6 @@
 use crate::config::ParsingMode;
 use crate::error::FileEncodingError;
-use crate::mp4::atom_info::{AtomIdent, AtomInfo, IDENTIFIER_LEN};
+use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo, IDENTIFIER_LEN};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::mp4::read::{meta_is_full, skip_atom};
 use crate::util::io::FileLike;
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+			*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -43,6 +44,14 @@ impl ContextualAtom {
 			return Ok(None);
 		}
 
+		// Not enough left for another atom. This is expected for the `udta` atom in QuickTime files,
+		// which may end with a 32-bit zero.
+		if *reader_len < ATOM_HEADER_LEN {
+			reader.seek(SeekFrom::Current(*reader_len as i64))?;
+			*reader_len = 0;
+			return Ok(None);
+		}
+
 		let Some(info) = AtomInfo::read(reader, *reader_len, parse_mode)? else {
 			return Ok(None);
 		};
@@ -152,9 +161,16 @@ impl AtomWriter {
 	}
 
 	pub(super) fn find_contextual_atom(&self, fourcc: [u8; 4]) -> Option<&ContextualAtom> {
-		self.atoms
-			.iter()
-			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
+		self.find_contextual_atoms(fourcc).next()
+	}
+
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
 	}
 
 	pub(super) fn into_contents(self) -> Vec<u8> {
@@ -212,7 +228,8 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		// Once an atom has an extended size, it has to stay that way
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 9a16f12eba6d84ceaff108e0c5a950455b76f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 023/102] fix: limit the depth of nested MP4 containers when
 writing

---
 lofty/src/mp4/write.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 1449dc6..71cbdaa 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -31,12 +31,28 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 				*b"minf",
 					*b"stbl",
 ];
+/// The containers above are only nested a handful of levels deep in practice. Anything nested deeper
+/// than this is not searched any further, as each level costs another level of recursion.
+const MAX_CONTAINER_DEPTH: usize = 32;
+
 impl ContextualAtom {
 	pub(super) fn read<R>(
 		reader: &mut R,
 		reader_len: &mut u64,
 		parse_mode: ParsingMode,
 	) -> Result<Option<ContextualAtom>, AtomParseError>
+	where
+		R: Read + Seek,
+	{
+		Self::read_nested(reader, reader_len, parse_mode, 0)
+	}
+
+	fn read_nested<R>(
+		reader: &mut R,
+		reader_len: &mut u64,
+		parse_mode: ParsingMode,
+		depth: usize,
+	) -> Result<Option<ContextualAtom>, AtomParseError>
 	where
 		R: Read + Seek,
 	{
@@ -57,7 +73,8 @@ impl ContextualAtom {
 		};
 
 		match info.ident {
-			AtomIdent::Fourcc(ident) if IMPORTANT_CONTAINERS.contains(&ident) => {},
+			AtomIdent::Fourcc(ident)
+				if IMPORTANT_CONTAINERS.contains(&ident) && depth < MAX_CONTAINER_DEPTH => {},
 			_ => {
 				*reader_len = reader_len.saturating_sub(info.len);
 
@@ -78,7 +95,7 @@ impl ContextualAtom {
 			len -= 4;
 		}
 
-		while let Some(child) = Self::read(reader, &mut len, parse_mode)? {
+		while let Some(child) = Self::read_nested(reader, &mut len, parse_mode, depth + 1)? {
 			children.push(child);
 		}
 
-- 
2.43.0


From 47f93ec5e93bf213bb704e8136f7cd4f3bb2ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 024/102] fix: limit the depth of nested ID3v2 chapter frames

---
 lofty/src/id3/v2/frame/content.rs             | 10 ++++--
 lofty/src/id3/v2/frame/read.rs                | 17 ++++++++--
 lofty/src/id3/v2/items/chapter_frame.rs       | 31 +++++++++++++++++--
 .../id3/v2/items/table_of_contents_frame.rs   | 31 +++++++++++++++++--
 lofty/src/id3/v2/read.rs                      | 11 +++++--
 5 files changed, 87 insertions(+), 13 deletions(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 9361854..e955bd7 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -18,6 +18,7 @@ pub(super) fn parse_content<R: Read>(
 	flags: FrameFlags,
 	version: Id3v2Version,
 	parse_options: ParseOptions,
+	depth: usize,
 ) -> Option<Result<Frame<'static>, FrameParseError>> {
 	log::trace!("Parsing frame content for ID: {}", id);
 
@@ -71,9 +72,12 @@ pub(super) fn parse_content<R: Read>(
 			.transpose()?
 			.map(Frame::Url),
 		"POPM" => PopularimeterFrame::parse(reader, flags).map(Frame::Popularimeter),
-		"CHAP" => ChapterFrame::parse(reader, parse_options, version, flags).map(Frame::Chapter),
-		"CTOC" => ChapterTableOfContentsFrame::parse(reader, parse_options, version, flags)
-			.map(Frame::TableOfContents),
+		"CHAP" => ChapterFrame::parse_nested(reader, parse_options, version, flags, depth)
+			.map(Frame::Chapter),
+		"CTOC" => {
+			ChapterTableOfContentsFrame::parse_nested(reader, parse_options, version, flags, depth)
+				.map(Frame::TableOfContents)
+		},
 		// SYLT, GEOB, and any unknown frames
 		_ => BinaryFrame::parse(reader, id, flags).map(Frame::Binary),
 	})
diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 2fcef85..65c9b36 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -26,6 +26,7 @@ impl ParsedFrame<'static> {
 		version: Id3v2Version,
 		tag_flags: Id3v2TagFlags,
 		parse_options: ParseOptions,
+		depth: usize,
 	) -> Result<Self, FrameParseError>
 	where
 		R: Read + ?Sized,
@@ -175,6 +176,7 @@ impl ParsedFrame<'static> {
 						flags,
 						version,
 						parse_options,
+						depth,
 					);
 				}
 
@@ -189,6 +191,7 @@ impl ParsedFrame<'static> {
 					flags,
 					version,
 					parse_options,
+					depth,
 				);
 			},
 			// Possible combinations:
@@ -211,6 +214,7 @@ impl ParsedFrame<'static> {
 					flags,
 					version,
 					parse_options,
+					depth,
 				);
 			},
 			// Possible combinations:
@@ -224,7 +228,15 @@ impl ParsedFrame<'static> {
 			},
 			// Everything else that doesn't have special flags
 			_ => {
-				return parse_frame(&mut reader, size, id, flags, version, parse_options);
+				return parse_frame(
+					&mut reader,
+					size,
+					id,
+					flags,
+					version,
+					parse_options,
+					depth,
+				);
 			},
 		}
 	}
@@ -273,8 +285,9 @@ fn parse_frame<R: Read>(
 	flags: FrameFlags,
 	version: Id3v2Version,
 	parse_options: ParseOptions,
+	depth: usize,
 ) -> Result<ParsedFrame<'static>, FrameParseError> {
-	match parse_content(reader, id, flags, version, parse_options) {
+	match parse_content(reader, id, flags, version, parse_options, depth) {
 		Some(result) => result.map(ParsedFrame::Next),
 		None => {
 			skip_frame(None, reader, size)?;
diff --git a/lofty/src/id3/v2/items/chapter_frame.rs b/lofty/src/id3/v2/items/chapter_frame.rs
index 702dba4..79cd8ea 100644
--- a/lofty/src/id3/v2/items/chapter_frame.rs
+++ b/lofty/src/id3/v2/items/chapter_frame.rs
@@ -1,7 +1,7 @@
 use crate::config::{ParseOptions, WriteOptions};
 use crate::id3::v2::error::{FrameEncodingError, FrameParseError};
 use crate::id3::v2::frame::list::FrameList;
-use crate::id3::v2::read::read_all_frames_into_list;
+use crate::id3::v2::read::{MAX_NESTED_FRAMES, read_all_frames_into_list};
 use crate::id3::v2::tag::TITLE_ID;
 use crate::id3::v2::{Frame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags, Id3v2Version};
 use crate::util::alloc::VecFallibleCapacity;
@@ -177,6 +177,26 @@ impl ChapterFrame<'static> {
 	where
 		R: Read,
 	{
+		Self::parse_nested(reader, parse_options, version, frame_flags, 0)
+	}
+
+	pub(in crate::id3::v2) fn parse_nested<R>(
+		reader: &mut R,
+		parse_options: ParseOptions,
+		version: Id3v2Version,
+		frame_flags: FrameFlags,
+		depth: usize,
+	) -> Result<Self, FrameParseError>
+	where
+		R: Read,
+	{
+		if depth >= MAX_NESTED_FRAMES {
+			return Err(FrameParseError::message(
+				Some(FRAME_ID),
+				"chapter frames are nested too deeply",
+			));
+		}
+
 		if version == Id3v2Version::V2 {
 			return Err(FrameParseError::unsupported_version(version));
 		}
@@ -194,8 +214,13 @@ impl ChapterFrame<'static> {
 		let start_offset = reader.read_u32::<BigEndian>()?;
 		let end_offset = reader.read_u32::<BigEndian>()?;
 
-		let children =
-			read_all_frames_into_list(reader, version, Id3v2TagFlags::default(), parse_options)?;
+		let children = read_all_frames_into_list(
+			reader,
+			version,
+			Id3v2TagFlags::default(),
+			parse_options,
+			depth + 1,
+		)?;
 
 		let header = FrameHeader::new(FRAME_ID, frame_flags);
 		Ok(ChapterFrame {
diff --git a/lofty/src/id3/v2/items/table_of_contents_frame.rs b/lofty/src/id3/v2/items/table_of_contents_frame.rs
index 9e20fbc..4bef152 100644
--- a/lofty/src/id3/v2/items/table_of_contents_frame.rs
+++ b/lofty/src/id3/v2/items/table_of_contents_frame.rs
@@ -2,7 +2,7 @@ use crate::config::{ParseOptions, WriteOptions};
 use crate::error::TooMuchDataError;
 use crate::id3::v2::error::{FrameEncodingError, FrameParseError};
 use crate::id3::v2::frame::list::FrameList;
-use crate::id3::v2::read::read_all_frames_into_list;
+use crate::id3::v2::read::{MAX_NESTED_FRAMES, read_all_frames_into_list};
 use crate::id3::v2::tag::TITLE_ID;
 use crate::id3::v2::{Frame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags, Id3v2Version};
 use crate::util::alloc::VecFallibleCapacity;
@@ -234,6 +234,26 @@ impl ChapterTableOfContentsFrame<'static> {
 	where
 		R: Read,
 	{
+		Self::parse_nested(reader, parse_options, version, frame_flags, 0)
+	}
+
+	pub(in crate::id3::v2) fn parse_nested<R>(
+		reader: &mut R,
+		parse_options: ParseOptions,
+		version: Id3v2Version,
+		frame_flags: FrameFlags,
+		depth: usize,
+	) -> Result<Self, FrameParseError>
+	where
+		R: Read,
+	{
+		if depth >= MAX_NESTED_FRAMES {
+			return Err(FrameParseError::message(
+				Some(FRAME_ID),
+				"chapter frames are nested too deeply",
+			));
+		}
+
 		if version == Id3v2Version::V2 {
 			return Err(FrameParseError::unsupported_version(version));
 		}
@@ -260,8 +280,13 @@ impl ChapterTableOfContentsFrame<'static> {
 			entries.push(Cow::Owned(entry.content));
 		}
 
-		let children =
-			read_all_frames_into_list(reader, version, Id3v2TagFlags::default(), parse_options)?;
+		let children = read_all_frames_into_list(
+			reader,
+			version,
+			Id3v2TagFlags::default(),
+			parse_options,
+			depth + 1,
+		)?;
 
 		let header = FrameHeader::new(FRAME_ID, frame_flags);
 		Ok(ChapterTableOfContentsFrame {
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index b892464..91ac1bb 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -145,21 +145,28 @@ where
 	let mut tag = Id3v2Tag::default();
 	tag.original_version = header.version;
 	tag.set_flags(header.flags);
-	tag.frames = read_all_frames_into_list(reader, header.version, header.flags, parse_options)?;
+	tag.frames =
+		read_all_frames_into_list(reader, header.version, header.flags, parse_options, 0)?;
 
 	Ok(tag)
 }
 
+/// The maximum number of levels that `CHAP` and `CTOC` frames can be embedded in each other
+///
+/// Each level costs another level of recursion.
+pub(super) const MAX_NESTED_FRAMES: usize = 16;
+
 pub(super) fn read_all_frames_into_list(
 	reader: &mut dyn Read,
 	version: Id3v2Version,
 	flags: Id3v2TagFlags,
 	parse_options: ParseOptions,
+	depth: usize,
 ) -> Result<FrameList<'static>, FrameParseError> {
 	let mut list = FrameList::default();
 
 	loop {
-		match ParsedFrame::read(reader, version, flags, parse_options)? {
+		match ParsedFrame::read(reader, version, flags, parse_options, depth)? {
 			ParsedFrame::Next(frame) => {
 				let frame_value_is_empty = frame.is_empty();
 				if let Some(replaced_frame) = list.insert(frame) {
-- 
2.43.0


From f24725367bbe75ab66ba6006c30dd8baee240b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 025/102] fix: overflow and division by zero in Opus and Speex
 properties

---
 lofty/src/ogg/opus/properties.rs  | 16 ++++++++++------
 lofty/src/ogg/speex/properties.rs |  8 +++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ba23d83..4ebd1d8 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -121,8 +121,10 @@ where
 		));
 	}
 
-	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
+	// Only the mapping families 0 and 1 have defined channel layouts
+	if let Some(channel_mask) = ChannelMask::from_opus_channels(properties.channels) {
+		properties.channel_mask = channel_mask;
+	}
 
 	let last_page = find_last_page(data);
 	let file_length = data.seek(SeekFrom::End(0))?;
@@ -140,7 +142,7 @@ where
 			.saturating_sub(u64::from(pre_skip));
 		if total_samples > 0 {
 			// Best case scenario
-			let length = (total_samples * 1000).div_round(48000);
+			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
 			// Get the stream length by subtracting the length of the header packets
 
@@ -148,11 +150,13 @@ where
 			let metadata_packet = packets.get(1).unwrap();
 			let header_size = identification_packet.len() + metadata_packet.len();
 
-			let stream_len = file_length - header_size as u64;
+			let stream_len = file_length.saturating_sub(header_size as u64);
 
 			properties.duration = Duration::from_millis(length);
-			properties.overall_bitrate = ((file_length * 8) / length) as u32;
-			properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			if length > 0 {
+				properties.overall_bitrate = ((file_length * 8) / length) as u32;
+				properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			}
 		} else {
 			log::warn!("Opus: The file contains invalid PCM values, unable to calculate length");
 		}
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 2cf3fb0..bfcc52f 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -169,7 +169,8 @@ where
 
 			// Best case scenario
 			if total_samples > 0 {
-				length = (total_samples * 1000).div_round(u64::from(properties.sample_rate));
+				length = (u128::from(total_samples) * 1000)
+					.div_round(u128::from(properties.sample_rate)) as u64;
 				properties.duration = Duration::from_millis(length);
 			} else {
 				log::warn!(
@@ -181,6 +182,11 @@ where
 		}
 	}
 
+	if length == 0 {
+		log::warn!("Speex: Stream is shorter than a millisecond, unable to calculate bitrate");
+		return Ok(properties);
+	}
+
 	if properties.nominal_bitrate > 0 {
 		properties.overall_bitrate = (file_length.saturating_mul(8) / length) as u32;
 		properties.audio_bitrate = (properties.nominal_bitrate as u64 / 1000) as u32;
-- 
2.43.0


From 2e7e06e4999322cd9cc333347681853e8099dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 026/102] fix: overflow and division by zero in Musepack, MP4
 and AAC properties

---
 lofty/src/aac/read.rs                |  7 ++++---
 lofty/src/mp4/properties.rs          | 10 +++++-----
 lofty/src/musepack/sv7/properties.rs |  5 +++++
 lofty/src/musepack/sv8/properties.rs |  6 ++++--
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 82cb16b..4f18c12 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -142,15 +142,16 @@ where
 		reader.seek(SeekFrom::Start(first_frame_end))?;
 
 		let mut frame_count = 1;
+		let mut bitrate_sum = u64::from(first_frame_header.bitrate);
 
 		while let Some((header, frame_end)) = find_next_frame(reader, parse_mode)? {
-			first_frame_header.bitrate += header.bitrate;
-			frame_count += 1u32;
+			bitrate_sum += u64::from(header.bitrate);
+			frame_count += 1u64;
 
 			reader.seek(SeekFrom::Start(frame_end))?;
 		}
 
-		first_frame_header.bitrate /= frame_count;
+		first_frame_header.bitrate = (bitrate_sum / frame_count) as u32;
 
 		super::properties::read_properties(&mut file.properties, first_frame_header, stream_len);
 	}
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 8145236..9367b11 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -693,8 +693,8 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		let duration_millis = (duration * 1000).div_round(u64::from(timescale));
-		properties.duration = Duration::from_millis(duration_millis);
+		let duration_millis = (u128::from(duration) * 1000).div_round(u128::from(timescale));
+		properties.duration = Duration::from_millis(duration_millis as u64);
 	}
 
 	// We need an `mdhd` atom at the bare minimum, everything else can be optional.
@@ -752,13 +752,13 @@ where
 			return Ok(properties);
 		}
 
-		let overall_bitrate = u128::from(file_length * 8) / duration_millis;
+		let overall_bitrate = u128::from(file_length) * 8 / duration_millis;
 		properties.overall_bitrate = Some(overall_bitrate as u32);
 
 		if matches!(properties.audio_bitrate, None | Some(0)) {
 			log::warn!("Estimating audio bitrate from 'mdat' size");
 
-			properties.audio_bitrate = Some((u128::from(mdat_len * 8) / duration_millis) as u32);
+			properties.audio_bitrate = Some(((u128::from(mdat_len) * 8) / duration_millis) as u32);
 		}
 	}
 
@@ -1003,7 +1003,7 @@ where
 	// Flags (3)
 	stsd.seek(SeekFrom::Current(4))?;
 
-	if dfla.len - 12 < 18 {
+	if dfla.len < 12 + 18 {
 		// The atom isn't long enough to hold a STREAMINFO block, also not worth an error.
 		return Ok(());
 	}
diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..7b68b1b 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -380,6 +380,11 @@ impl MpcSv7Properties {
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
+		if total_samples == 0 {
+			log::warn!("Sample count is 0, unable to calculate bitrate");
+			return Ok(properties);
+		}
+
 		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
 			/ (total_samples * 1000)) as u32;
 
diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..6479c8a 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,13 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	// The sample counts are 64-bit, so the intermediate values may not fit in 64 bits
+	let total_samples = u128::from(total_samples);
+	let length = (total_samples * 1000).div_round(u128::from(sample_rate)) as u64;
 
 	properties.duration = Duration::from_millis(length);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+		((u128::from(stream_length) * 8 * u128::from(sample_rate)) / (total_samples * 1000)) as u32;
 
 	Ok(properties)
 }
-- 
2.43.0


From 1feeb12c0cf071376835bb2f08488bdf348e7873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 027/102] fix: reject MP4 atoms that are up to 8 bytes longer
 than their parent

---
 lofty/src/mp4/atom_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 78756cc..4785d41 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -213,8 +213,8 @@ impl AtomInfo {
 			return Err(NotEnoughDataError::new(Some(8)).into());
 		}
 
-		// `len` includes itself and the identifier
-		if (len - ATOM_HEADER_LEN) > reader_size {
+		// Both `len` and `reader_size` include the size and the identifier
+		if len > reader_size {
 			log::warn!(
 				"Atom size exceeds remaining data (ident={} len={}, remaining={})",
 				identifier.escape_ascii(),
-- 
2.43.0


From 341785ca33274b3bdef21d30b52b479fca53aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 028/102] fix: reject empty tags of types that the format does
 not support

---
 lofty/src/tag/tag_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/tag/tag_ext.rs b/lofty/src/tag/tag_ext.rs
index c77ecc6..af5539d 100644
--- a/lofty/src/tag/tag_ext.rs
+++ b/lofty/src/tag/tag_ext.rs
@@ -108,7 +108,8 @@ pub trait TagExt: Accessor + TagWriteExt + Into<Tag> + Sized + private::Sealed {
 		let file = VerifiedFile::new(file)?;
 
 		// Empty tag writes are allowed for read-only formats, since they'll be stripped
-		if !file.format().tag_support(self.tag_type()).is_writable() && !self.is_empty() {
+		let support = file.format().tag_support(self.tag_type());
+		if !support.is_readable() || (!support.is_writable() && !self.is_empty()) {
 			return Err(FileEncodingError::from(UnsupportedTagError).with_format(file.format()));
 		}
 
-- 
2.43.0


From 03f110a7ad3344bc891579505c913f24101b8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 029/102] fix: report failing readers instead of treating them
 as the end of the content

---
 lofty/src/id3/mod.rs               | 20 +++++-----
 lofty/src/id3/v2/read.rs           |  6 ++-
 lofty/src/id3/v2/util/synchsafe.rs |  9 ++++-
 lofty/src/mp4/moov.rs              |  4 +-
 lofty/src/mp4/properties.rs        |  5 ++-
 lofty/src/mp4/read/atom_reader.rs  | 12 +++++-
 lofty/src/mpeg/header.rs           |  3 +-
 lofty/src/mpeg/properties.rs       |  3 +-
 lofty/src/musepack/sv8/read.rs     |  9 ++++-
 lofty/src/ogg/mod.rs               | 27 ++++++++++----
 lofty/src/ogg/opus/properties.rs   |  4 +-
 lofty/src/ogg/speex/properties.rs  |  4 +-
 lofty/src/ogg/vorbis/properties.rs |  4 +-
 lofty/src/util/io.rs               | 59 ++++++++++++++++++++++++++++++
 lofty/src/wavpack/properties.rs    |  3 +-
 15 files changed, 134 insertions(+), 38 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index a0cab50..4c735cc 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -119,12 +119,14 @@ where
 	let mut id3v1 = None;
 	let mut header = None;
 
-	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(-128)).is_err() {
-		data.seek(SeekFrom::End(0))?;
+	// Reader is too small to contain an ID3v1 tag
+	let data_len = data.seek(SeekFrom::End(0))?;
+	if data_len < 128 {
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	data.seek(SeekFrom::End(-128))?;
+
 	let mut id3v1_header = [0; 3];
 	data.read_exact(&mut id3v1_header)?;
 
@@ -137,7 +139,9 @@ where
 	}
 
 	// The marker can also be the middle of an "APETAGEX" preamble, if there's an APE tag of just the right size
-	if data.seek(SeekFrom::End(-131)).is_ok() {
+	if data_len >= 131 {
+		data.seek(SeekFrom::End(-131))?;
+
 		let mut preamble = [0; 8];
 		data.read_exact(&mut preamble)?;
 		if &preamble == b"APETAGEX" {
@@ -234,7 +238,7 @@ where
 			header = Some(id3v2_header);
 		},
 		// Only the absence of a (valid) tag is okay, not being able to look for one
-		Err(e) if is_io_failure(&e) => return Err(e),
+		Err(e) if crate::util::io::is_io_failure(&e) => return Err(e),
 		Err(_) => {
 			reader.seek(SeekFrom::Start(start))?;
 		},
@@ -243,12 +247,6 @@ where
 	Ok(ID3FindResults(header, id3v2))
 }
 
-fn is_io_failure(error: &Id3v2ParseError) -> bool {
-	core::error::Error::source(error)
-		.and_then(|source| source.downcast_ref::<std::io::Error>())
-		.is_some_and(|e| e.kind() != std::io::ErrorKind::UnexpectedEof)
-}
-
 /// Searches for an ID3v2 tag in (potential) junk data between the start
 /// of the file and the first frame
 fn find_id3v2_in_junk<R>(reader: &mut R) -> Result<Option<u64>, Id3v2ParseError>
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index 91ac1bb..d222f37 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -5,6 +5,7 @@ use crate::config::ParseOptions;
 use crate::id3::v2::error::{FrameParseError, Id3v2ParseError};
 use crate::id3::v2::util::synchsafe::UnsynchronizedStream;
 use crate::id3::v2::{Frame, FrameId, FrameList, Id3v2TagFlags, Id3v2Version, TimestampFrame};
+use crate::util::io::FailureTracker;
 use crate::tag::items::Timestamp;
 
 use std::borrow::Cow;
@@ -24,7 +25,7 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.content_size()));
+	let mut tag_bytes = FailureTracker::new(bytes.take(u64::from(header.content_size())));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
@@ -45,6 +46,9 @@ where
 	// Throw away the rest of the tag (padding, bad frames)
 	std::io::copy(&mut tag_bytes, &mut std::io::sink())?;
 
+	// The frames may not have been read in full
+	let _ = tag_bytes.into_inner()?;
+
 	// Construct TDRC frame from TYER, TDAT, and TIME frames
 	if parse_options.implicit_conversions && header.version == Id3v2Version::V3 {
 		construct_tdrc_from_v3(&mut ret);
diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..2b89de9 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -111,8 +111,15 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
-				self.bytes_available = self.reader.read(&mut self.buf)?;
+				self.bytes_available = 0;
 				self.pos = 0;
+
+				match self.reader.read(&mut self.buf) {
+					Ok(bytes_available) => self.bytes_available = bytes_available,
+					// The bytes already handed out must not be lost, they will only be read once
+					Err(e) if e.kind() == std::io::ErrorKind::Interrupted && dest_pos > 0 => break,
+					Err(e) => return Err(e),
+				}
 			}
 
 			// Exhausted the reader
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 3c19897..55240cd 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -23,7 +23,7 @@ impl Moov {
 	{
 		let mut moov = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_or_end()? {
 			if atom.ident == AtomIdent::Fourcc(*b"moov") {
 				moov = Some(atom);
 				break;
@@ -45,7 +45,7 @@ impl Moov {
 		let mut traks = Vec::new();
 		let mut ilst = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_or_end()? {
 			if let AtomIdent::Fourcc(fourcc) = atom.ident {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 9367b11..bcddeee 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -5,6 +5,7 @@ use crate::macros::try_vec;
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::properties::FileProperties;
 use crate::util::alloc::VecFallibleCapacity;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -721,7 +722,7 @@ where
 		match mdat_length(reader) {
 			Ok(len) => mdat_len = len,
 			Err(err) => {
-				if parse_mode == ParsingMode::Strict {
+				if parse_mode == ParsingMode::Strict || is_io_failure(&err) {
 					return Err(err);
 				}
 
@@ -1029,7 +1030,7 @@ where
 {
 	reader.rewind()?;
 
-	while let Ok(Some(atom)) = reader.next() {
+	while let Some(atom) = reader.next_or_end()? {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
 			return Ok(atom.len - atom.header_size());
 		}
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..7aaaad8 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -2,7 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::SizeMismatchError;
 use crate::mp4::atom_info::AtomInfo;
 use crate::mp4::error::AtomParseError;
-use crate::util::io::SeekStreamLen;
+use crate::util::io::{SeekStreamLen, is_io_failure};
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -103,6 +103,16 @@ where
 		AtomInfo::read(self, self.remaining_size, self.parse_mode)
 	}
 
+	/// Read the next atom, treating malformed atoms as the end of the reader
+	///
+	/// This will only error if the underlying reader does.
+	pub(crate) fn next_or_end(&mut self) -> Result<Option<AtomInfo>, AtomParseError> {
+		match self.next() {
+			Err(e) if !is_io_failure(&e) => Ok(None),
+			ret => ret,
+		}
+	}
+
 	pub(crate) fn into_inner(self) -> R {
 		self.reader
 	}
diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index fd2d06b..6f92812 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -1,5 +1,4 @@
 use super::constants::{BITRATES, PADDING_SIZES, SAMPLE_RATES, SAMPLES, SIDE_INFORMATION_SIZES};
-use crate::error::FileParseError;
 use crate::mpeg::error::MpegParseError;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -52,7 +51,7 @@ const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
-) -> Result<Option<Header>, FileParseError>
+) -> std::io::Result<Option<Header>>
 where
 	R: Read + Seek,
 {
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index e887149..4e8ceb8 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -201,8 +201,7 @@ where
 					break;
 				}
 			},
-			// Encountered some IO error, just break
-			Err(_) => break,
+			Err(e) => return Err(e.into()),
 			// No frame sync found, continue further back in the file
 			_ => {},
 		}
diff --git a/lofty/src/musepack/sv8/read.rs b/lofty/src/musepack/sv8/read.rs
index b0706f8..296a6c8 100644
--- a/lofty/src/musepack/sv8/read.rs
+++ b/lofty/src/musepack/sv8/read.rs
@@ -1,6 +1,7 @@
 use super::properties::{EncoderInfo, MpcSv8Properties, ReplayGain, StreamHeader};
 use crate::config::ParsingMode;
 use crate::musepack::error::MpcParseError;
+use crate::util::io::is_io_failure;
 
 use std::io::Read;
 
@@ -31,7 +32,13 @@ where
 	let mut stream_length = 0;
 	let mut found_stream_end = false;
 
-	while let Ok((packet_id, packet_length)) = packet_reader.next() {
+	loop {
+		let (packet_id, packet_length) = match packet_reader.next() {
+			Ok(packet) => packet,
+			Err(e) if is_io_failure(&e) => return Err(e),
+			Err(_) => break,
+		};
+
 		stream_length += packet_length;
 
 		match packet_id {
diff --git a/lofty/src/ogg/mod.rs b/lofty/src/ogg/mod.rs
index 7c7166d..35be7fc 100644
--- a/lofty/src/ogg/mod.rs
+++ b/lofty/src/ogg/mod.rs
@@ -13,7 +13,7 @@ pub(crate) mod vorbis;
 
 use crate::error::FileParseError;
 use crate::io::{RevSearchEnd, RevSearchStart};
-use crate::util::io::ReadFindExt;
+use crate::util::io::{ReadFindExt, is_io_failure};
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -42,10 +42,21 @@ fn verify_signature(content: &[u8], sig: &[u8]) -> Result<(), FileParseError> {
 	Ok(())
 }
 
-/// Find the last page in the OGG stream.
+/// Find the last page in the OGG stream, if there is a valid one.
 ///
-/// This will leave the reader at the end of the [`Page`].
-fn find_last_page<R>(data: &mut R) -> Result<Page, FileParseError>
+/// If found, this will leave the reader at the end of the [`Page`].
+fn find_last_page<R>(data: &mut R) -> Result<Option<Page>, FileParseError>
+where
+	R: Read + Seek,
+{
+	match search_for_last_page(data) {
+		Ok(page) => Ok(Some(page)),
+		Err(e) if is_io_failure(&e) => Err(e.into()),
+		Err(_) => Ok(None),
+	}
+}
+
+fn search_for_last_page<R>(data: &mut R) -> Result<Page, PageError>
 where
 	R: Read + Seek,
 {
@@ -57,7 +68,7 @@ where
 	// Prior to this point, all implementations only read the header packets. There should *always*
 	// be more pages for the audio data, otherwise the file is invalid.
 	if !data.rfind(PATTERN).buffer_size(BUFFER_SIZE).search()? {
-		return Err(PageError::MissingMagic.into());
+		return Err(PageError::MissingMagic);
 	}
 
 	// In the absolute *worst* case we'll do 3 more retries. Realistically though, the last page in
@@ -84,14 +95,14 @@ where
 					.end_pos(RevSearchEnd::Pos(header_end))
 					.search()?
 				{
-					return Err(PageError::MissingMagic.into());
+					return Err(PageError::MissingMagic);
 				}
 				continue;
 			},
-			Err(err) => return Err(err.into()),
+			Err(err) => return Err(err),
 		}
 	}
 
 	data.seek(SeekFrom::Start(last_page_header.start))?;
-	Ok(Page::read(data)?)
+	Page::read(data)
 }
diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 4ebd1d8..24d50b4 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -126,10 +126,10 @@ where
 		properties.channel_mask = channel_mask;
 	}
 
-	let last_page = find_last_page(data);
+	let last_page = find_last_page(data)?;
 	let file_length = data.seek(SeekFrom::End(0))?;
 
-	if let Ok(last_page) = last_page {
+	if let Some(last_page) = last_page {
 		let first_page_abgp = first_page_header.abgp;
 		let last_page_abgp = last_page.header().abgp;
 
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index bfcc52f..ced7d79 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -150,7 +150,7 @@ where
 
 	properties.vbr = identification_packet_reader.read_u32::<LittleEndian>()? == 1;
 
-	let last_page = find_last_page(data);
+	let last_page = find_last_page(data)?;
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// The stream length is the entire file minus the two mandatory metadata packets
@@ -160,7 +160,7 @@ where
 	// This is used for bitrate calculation, it should be the length in
 	// milliseconds, but if we can't determine it then we'll just use 1000.
 	let mut length = 1000;
-	if let Ok(last_page) = last_page {
+	if let Some(last_page) = last_page {
 		let first_page_abgp = first_page_header.abgp;
 		let last_page_abgp = last_page.header().abgp;
 
diff --git a/lofty/src/ogg/vorbis/properties.rs b/lofty/src/ogg/vorbis/properties.rs
index c11a92f..daa09d0 100644
--- a/lofty/src/ogg/vorbis/properties.rs
+++ b/lofty/src/ogg/vorbis/properties.rs
@@ -110,13 +110,13 @@ where
 	properties.bitrate_nominal = first_page_content.read_i32::<LittleEndian>()?;
 	properties.bitrate_minimum = first_page_content.read_i32::<LittleEndian>()?;
 
-	let last_page = find_last_page(data);
+	let last_page = find_last_page(data)?;
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// This is used for bitrate calculation, it should be the length in
 	// milliseconds, but if we can't determine it then we'll just use 1000.
 	let mut length = 1000;
-	if let Ok(last_page) = last_page {
+	if let Some(last_page) = last_page {
 		let first_page_abgp = first_page_header.abgp;
 		let last_page_abgp = last_page.header().abgp;
 
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 5b56b4e..f15fbce 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -27,6 +27,65 @@ pub(crate) trait SeekStreamLen: Seek {
 
 impl<T> SeekStreamLen for T where T: Seek {}
 
+/// Whether an error stems from a failing reader, rather than from malformed content
+pub(crate) fn is_io_failure(error: &(dyn core::error::Error + 'static)) -> bool {
+	use std::io::ErrorKind;
+
+	let mut current = Some(error);
+	while let Some(error) = current {
+		if let Some(io_error) = error.downcast_ref::<std::io::Error>() {
+			return !matches!(
+				io_error.kind(),
+				// These are the result of bad sizes/offsets
+				ErrorKind::UnexpectedEof | ErrorKind::InvalidInput | ErrorKind::InvalidData
+			);
+		}
+
+		current = error.source();
+	}
+
+	false
+}
+
+/// A reader that remembers whether it failed
+///
+/// Many parsers tolerate truncated content, and therefore can't tell the end of the content from a reader
+/// that is unable to provide the rest of it. This allows for checking for the latter afterwards.
+pub(crate) struct FailureTracker<R> {
+	reader: R,
+	failure: Option<std::io::Error>,
+}
+
+impl<R> FailureTracker<R> {
+	pub(crate) fn new(reader: R) -> Self {
+		Self {
+			reader,
+			failure: None,
+		}
+	}
+
+	/// Extract the reader, unless it ever failed
+	pub(crate) fn into_inner(self) -> std::io::Result<R> {
+		match self.failure {
+			Some(failure) => Err(failure),
+			None => Ok(self.reader),
+		}
+	}
+}
+
+impl<R: Read> Read for FailureTracker<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let ret = self.reader.read(buf);
+		if let Err(e) = &ret
+			&& e.kind() != std::io::ErrorKind::Interrupted
+			&& self.failure.is_none()
+		{
+			self.failure = Some(std::io::Error::new(e.kind(), e.to_string()));
+		}
+		ret
+	}
+}
+
 /// Provides a method to truncate an object to the specified length
 ///
 /// This is one component of the [`FileLike`] trait, which is used to provide implementors access to any
diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..e8f4995 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -2,6 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::{NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError};
 use crate::macros::try_vec;
 use crate::properties::{ChannelMask, FileProperties};
+use crate::util::io::is_io_failure;
 use crate::wavpack::error::WavPackParseError;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -136,7 +137,7 @@ where
 		let block_header;
 		match parse_wv_header(reader) {
 			Ok(header) => block_header = header,
-			Err(e) if parse_mode == ParsingMode::Strict => return Err(e),
+			Err(e) if parse_mode == ParsingMode::Strict || is_io_failure(&e) => return Err(e),
 			_ => break,
 		}
 
-- 
2.43.0


From edc6933b0ff403a85727515971d2a7c5cb6cc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 030/102] fix: apply the allocation limit to bytes rather than
 elements

---
 lofty/src/util/alloc.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..0d4c4cb 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -32,6 +32,16 @@ impl From<TryReserveError> for AllocationError {
 	}
 }
 
+/// Verify that `count` elements fit into `GlobalOptions::allocation_limit` (which is in bytes)
+fn check_limit<T>(count: usize) -> Result<(), AllocationError> {
+	let size = count.saturating_mul(core::mem::size_of::<T>());
+	if size > unsafe { global_options().allocation_limit } {
+		return Err(AllocationError::LimitExceeded);
+	}
+
+	Ok(())
+}
+
 /// Provides the `fallible_repeat` method on `Vec`
 ///
 /// It is intended to be used in [`try_vec!`](crate::macros::try_vec).
@@ -50,9 +60,7 @@ impl<T> VecFallibleRepeat<T> for Vec<T> {
 			return Ok(self);
 		}
 
-		if expected_size > unsafe { global_options().allocation_limit } {
-			return Err(AllocationError::LimitExceeded);
-		}
+		check_limit::<T>(expected_size)?;
 
 		self.try_reserve(expected_size)?;
 
@@ -100,9 +108,7 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
-			return Err(AllocationError::LimitExceeded);
-		}
+		check_limit::<T>(capacity)?;
 
 		let mut v = Vec::new();
 		v.try_reserve(capacity)?;
-- 
2.43.0


From e2acce65fb38932c29a183c02e4bdf3f2b423b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 031/102] fix: skip what remains of an ID3v2 frame after
 reading it

---
 lofty/src/id3/v2/frame/read.rs | 190 +++++++++++++++++++--------------
 1 file changed, 109 insertions(+), 81 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 65c9b36..e26c572 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -142,66 +142,57 @@ impl ParsedFrame<'static> {
 		}
 
 		// Restrict the reader to the frame content
-		let mut reader = reader.take(u64::from(size));
+		let mut content_reader = reader.take(u64::from(size));
+		let parsed = read_content(
+			&mut content_reader,
+			size,
+			id,
+			flags,
+			version,
+			parse_options,
+			depth,
+		)?;
+
+		// The content isn't necessarily used up, especially with compression
+		std::io::copy(&mut content_reader, &mut std::io::sink())
+			.map_err(|e| FrameParseError::io(None, e))?;
+
+		Ok(parsed)
+	}
+}
 
-		// It seems like the flags are applied in the order:
-		//
-		// unsynchronization -> compression -> encryption
+fn read_content<R>(
+	reader: &mut R,
+	size: u32,
+	id: FrameId<'static>,
+	flags: FrameFlags,
+	version: Id3v2Version,
+	parse_options: ParseOptions,
+	depth: usize,
+) -> Result<ParsedFrame<'static>, FrameParseError>
+where
+	R: Read,
+{
+	// It seems like the flags are applied in the order:
+	//
+	// unsynchronization -> compression -> encryption
+	//
+	// Which all have their own needs, so this gets a little messy...
+	match flags {
+		// Possible combinations:
 		//
-		// Which all have their own needs, so this gets a little messy...
-		match flags {
-			// Possible combinations:
-			//
-			// * unsynchronized + compressed + encrypted
-			// * unsynchronized + compressed
-			// * unsynchronized + encrypted
-			// * unsynchronized
-			FrameFlags {
-				unsynchronisation: true,
-				..
-			} => {
-				let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
-
-				if flags.compression {
-					let mut compression_reader = handle_compression(unsynchronized_reader)?;
-
-					if flags.encryption.is_some() {
-						return handle_encryption(&mut compression_reader, size, id, flags);
-					}
-
-					return parse_frame(
-						&mut compression_reader,
-						size,
-						id,
-						flags,
-						version,
-						parse_options,
-						depth,
-					);
-				}
-
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut unsynchronized_reader, size, id, flags);
-				}
-
-				return parse_frame(
-					&mut unsynchronized_reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-					depth,
-				);
-			},
-			// Possible combinations:
-			//
-			// * compressed + encrypted
-			// * compressed
-			FrameFlags {
-				compression: true, ..
-			} => {
-				let mut compression_reader = handle_compression(reader)?;
+		// * unsynchronized + compressed + encrypted
+		// * unsynchronized + compressed
+		// * unsynchronized + encrypted
+		// * unsynchronized
+		FrameFlags {
+			unsynchronisation: true,
+			..
+		} => {
+			let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
+
+			if flags.compression {
+				let mut compression_reader = handle_compression(unsynchronized_reader)?;
 
 				if flags.encryption.is_some() {
 					return handle_encryption(&mut compression_reader, size, id, flags);
@@ -216,29 +207,66 @@ impl ParsedFrame<'static> {
 					parse_options,
 					depth,
 				);
-			},
-			// Possible combinations:
-			//
-			// * encrypted
-			FrameFlags {
-				encryption: Some(_),
-				..
-			} => {
-				return handle_encryption(&mut reader, size, id, flags);
-			},
-			// Everything else that doesn't have special flags
-			_ => {
-				return parse_frame(
-					&mut reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-					depth,
-				);
-			},
-		}
+			}
+
+			if flags.encryption.is_some() {
+				return handle_encryption(&mut unsynchronized_reader, size, id, flags);
+			}
+
+			return parse_frame(
+				&mut unsynchronized_reader,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+				depth,
+			);
+		},
+		// Possible combinations:
+		//
+		// * compressed + encrypted
+		// * compressed
+		FrameFlags {
+			compression: true, ..
+		} => {
+			let mut compression_reader = handle_compression(reader)?;
+
+			if flags.encryption.is_some() {
+				return handle_encryption(&mut compression_reader, size, id, flags);
+			}
+
+			return parse_frame(
+				&mut compression_reader,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+				depth,
+			);
+		},
+		// Possible combinations:
+		//
+		// * encrypted
+		FrameFlags {
+			encryption: Some(_),
+			..
+		} => {
+			return handle_encryption(reader, size, id, flags);
+		},
+		// Everything else that doesn't have special flags
+		_ => {
+			return parse_frame(
+				reader,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+				depth,
+			);
+		},
 	}
 }
 
-- 
2.43.0


From f8b8970362352613288bf76a634a3dd03cc044e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 032/102] fix: do not look for ADTS frames in the ID3v1 tag

---
 lofty/src/aac/header.rs |  3 +++
 lofty/src/aac/read.rs   | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lofty/src/aac/header.rs b/lofty/src/aac/header.rs
index 3a84d13..7dba616 100644
--- a/lofty/src/aac/header.rs
+++ b/lofty/src/aac/header.rs
@@ -9,6 +9,9 @@ use std::io::{Read, Seek, SeekFrom};
 // If they aren't equal, something is broken.
 pub(super) const HEADER_MASK: u32 = 0xFFFF_FFE0;
 
+// The size of a header without a CRC
+pub(super) const ADTS_HEADER_SIZE: u64 = 7;
+
 #[derive(Copy, Clone)]
 pub(crate) struct ADTSHeader {
 	pub(crate) version: MpegVersion,
diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 4f18c12..ca11720 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -1,5 +1,5 @@
 use super::AacFile;
-use super::header::{ADTSHeader, HEADER_MASK};
+use super::header::{ADTS_HEADER_SIZE, ADTSHeader, HEADER_MASK};
 use crate::aac::error::AacParseError;
 use crate::config::{ParseOptions, ParsingMode};
 use crate::id3::v2::header::Id3v2Header;
@@ -35,6 +35,7 @@ where
 
 	let pos = reader.stream_position()?;
 	let mut stream_len = reader.seek(SeekFrom::End(0))?;
+	let mut stream_end = stream_len;
 
 	reader.seek(SeekFrom::Start(pos))?;
 
@@ -98,7 +99,7 @@ where
 				reader.seek(SeekFrom::Current(-1 * header.len() as i64))?;
 
 				if let Some((first_frame_header_, first_frame_end_)) =
-					find_next_frame(reader, parse_mode)?
+					find_next_frame(reader, stream_end, parse_mode)?
 				{
 					log::debug!("Found first ADTS frame");
 
@@ -121,6 +122,7 @@ where
 		};
 
 		stream_len = new_stream_len;
+		stream_end = stream_end.saturating_sub(128);
 		file.id3v1_tag = id3v1;
 	}
 
@@ -144,7 +146,7 @@ where
 		let mut frame_count = 1;
 		let mut bitrate_sum = u64::from(first_frame_header.bitrate);
 
-		while let Some((header, frame_end)) = find_next_frame(reader, parse_mode)? {
+		while let Some((header, frame_end)) = find_next_frame(reader, stream_end, parse_mode)? {
 			bitrate_sum += u64::from(header.bitrate);
 			frame_count += 1u64;
 
@@ -160,9 +162,10 @@ where
 }
 
 // TODO: Does a lot of unnecessary seeking
-// Searches for the next frame, comparing it to the following one
+// Searches for the next frame that starts before `stream_end`, comparing it to the following one
 fn find_next_frame<R>(
 	reader: &mut R,
+	stream_end: u64,
 	parsing_mode: ParsingMode,
 ) -> Result<Option<(ADTSHeader, u64)>, AacParseError>
 where
@@ -173,6 +176,11 @@ where
 	while let Some(first_adts_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
+		if first_adts_frame_start_absolute + ADTS_HEADER_SIZE > stream_end {
+			// Whatever follows the stream (e.g. an ID3v1 tag) isn't made of frames
+			return Ok(None);
+		}
+
 		// Seek back to the start of the frame and read the header
 		reader.seek(SeekFrom::Start(first_adts_frame_start_absolute))?;
 
-- 
2.43.0


From 47e5b298888e3a72bb06a8e09216855fc57e8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 033/102] fix: sign extend single byte integers in MP4 atoms

---
 lofty/src/mp4/ilst/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a2da780..edab8e1 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -359,7 +359,7 @@ fn parse_uint(bytes: &[u8]) -> Result<u32, AtomParseError> {
 
 fn parse_int(bytes: &[u8]) -> Result<i32, AtomParseError> {
 	match bytes.len() {
-		1 => Ok(i32::from(bytes[0])),
+		1 => Ok(i32::from(bytes[0] as i8)),
 		2 => Ok(i32::from(i16::from_be_bytes([bytes[0], bytes[1]]))),
 		3 => {
 			let pad = if bytes[0] & 0x80 != 0 { 0xFF } else { 0x00 };
-- 
2.43.0


From 874070e1984600b7d8d86b6ead4de2063bbb43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 034/102] fix: encode UTF-16 MP4 atoms as UTF-16

---
 lofty/src/mp4/ilst/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 294ab6a..3ace293 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -689,7 +689,13 @@ where
 	for value in data {
 		match value {
 			AtomData::UTF8(text) => write_data(DataType::Utf8, text.as_bytes(), writer)?,
-			AtomData::UTF16(text) => write_data(DataType::Utf16, text.as_bytes(), writer)?,
+			AtomData::UTF16(text) => {
+				let bytes = text
+					.encode_utf16()
+					.flat_map(u16::to_be_bytes)
+					.collect::<Vec<_>>();
+				write_data(DataType::Utf16, &bytes, writer)?;
+			},
 			AtomData::Picture(pic) => write_picture(pic, writer)?,
 			AtomData::SignedInteger(int) => write_signed_int(*int, writer)?,
 			AtomData::UnsignedInteger(uint) => write_unsigned_int(*uint, writer)?,
-- 
2.43.0


From 8f4e9889ee00aa29c55c113ca3203e1270983411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 035/102] fix: Read the additional data of ID3v2 frames in the
 order and form of each version

ID3v2.4 places the group identifier before the encryption method, ID3v2.3
has a plain (not synchsafe) decompressed size in front of both. Encrypted
frames can't be decompressed, and are not required to have a data length
indicator in ID3v2.3.
---
 lofty/src/id3/v2/frame/read.rs | 209 +++++++++++++++------------------
 1 file changed, 96 insertions(+), 113 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index e26c572..532835a 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -7,7 +7,7 @@ use crate::id3::v2::header::Id3v2Version;
 use crate::id3::v2::tag::ATTACHED_PICTURE_ID;
 use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
 use crate::id3::v2::{BinaryFrame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags};
-use crate::macros::try_vec;
+use crate::util::alloc::VecFallibleCapacity;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -80,44 +80,49 @@ impl ParsedFrame<'static> {
 			return Ok(Self::Skip);
 		}
 
-		// Get the encryption method symbol
-		if let Some(enc) = flags.encryption.as_mut() {
-			log::trace!("Reading encryption method symbol");
+		// The additional data appears in the order that the flags are defined in, which differs
+		// between the versions:
+		//
+		// * ID3v2.3: decompressed size, encryption method, group identifier
+		// * ID3v2.4: group identifier, encryption method, data length indicator
+		let is_v4 = version == Id3v2Version::V4;
 
-			if size < 1 {
+		// Get the decompressed size
+		if !is_v4 && flags.compression {
+			log::trace!("Reading decompressed size");
+
+			if size < 4 {
 				return Err(FrameParseError::undersized(id));
 			}
 
-			match reader.read_u8() {
-				Ok(sym) => *enc = sym,
+			// Unlike the data length indicator, this is not a synchsafe integer
+			match reader.read_u32::<BigEndian>() {
+				Ok(len) => flags.data_length_indicator = Some(len),
 				Err(e) => {
 					return Err(FrameParseError::io(Some(id), e));
 				},
 			}
 
-			size -= 1;
+			size -= 4;
+		}
+
+		// Get the encryption method symbol
+		if !is_v4 && let Some(enc) = flags.encryption.as_mut() {
+			*enc = read_flag_byte(reader, &id, &mut size)?;
 		}
 
 		// Get the group identifier
 		if let Some(group) = flags.grouping_identity.as_mut() {
-			log::trace!("Reading group identifier");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			match reader.read_u8() {
-				Ok(sym) => *group = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			}
+			*group = read_flag_byte(reader, &id, &mut size)?;
+		}
 
-			size -= 1;
+		// Get the encryption method symbol
+		if is_v4 && let Some(enc) = flags.encryption.as_mut() {
+			*enc = read_flag_byte(reader, &id, &mut size)?;
 		}
 
 		// Get the real data length
-		if flags.data_length_indicator.is_some() || flags.compression {
+		if is_v4 && (flags.data_length_indicator.is_some() || flags.compression) {
 			log::trace!("Reading data length indicator");
 
 			if size < 4 {
@@ -173,101 +178,76 @@ fn read_content<R>(
 where
 	R: Read,
 {
-	// It seems like the flags are applied in the order:
+	// The flags are applied in the order:
 	//
-	// unsynchronization -> compression -> encryption
+	// compression -> encryption -> unsynchronization
 	//
-	// Which all have their own needs, so this gets a little messy...
-	match flags {
-		// Possible combinations:
-		//
-		// * unsynchronized + compressed + encrypted
-		// * unsynchronized + compressed
-		// * unsynchronized + encrypted
-		// * unsynchronized
-		FrameFlags {
-			unsynchronisation: true,
-			..
-		} => {
-			let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
-
-			if flags.compression {
-				let mut compression_reader = handle_compression(unsynchronized_reader)?;
-
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut compression_reader, size, id, flags);
-				}
+	// Meaning that compressed data cannot be read if it's also encrypted.
+	if flags.unsynchronisation {
+		let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
+		return read_synchronized_content(
+			&mut unsynchronized_reader,
+			size,
+			id,
+			flags,
+			version,
+			parse_options,
+			depth,
+		);
+	}
 
-				return parse_frame(
-					&mut compression_reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-					depth,
-				);
-			}
+	read_synchronized_content(reader, size, id, flags, version, parse_options, depth)
+}
 
-			if flags.encryption.is_some() {
-				return handle_encryption(&mut unsynchronized_reader, size, id, flags);
-			}
+fn read_synchronized_content<R>(
+	reader: &mut R,
+	size: u32,
+	id: FrameId<'static>,
+	flags: FrameFlags,
+	version: Id3v2Version,
+	parse_options: ParseOptions,
+	depth: usize,
+) -> Result<ParsedFrame<'static>, FrameParseError>
+where
+	R: Read,
+{
+	if flags.encryption.is_some() {
+		return handle_encryption(reader, size, id, flags, version);
+	}
 
-			return parse_frame(
-				&mut unsynchronized_reader,
-				size,
-				id,
-				flags,
-				version,
-				parse_options,
-				depth,
-			);
-		},
-		// Possible combinations:
-		//
-		// * compressed + encrypted
-		// * compressed
-		FrameFlags {
-			compression: true, ..
-		} => {
-			let mut compression_reader = handle_compression(reader)?;
-
-			if flags.encryption.is_some() {
-				return handle_encryption(&mut compression_reader, size, id, flags);
-			}
+	if flags.compression {
+		let mut compression_reader = handle_compression(reader)?;
+		return parse_frame(
+			&mut compression_reader,
+			size,
+			id,
+			flags,
+			version,
+			parse_options,
+			depth,
+		);
+	}
 
-			return parse_frame(
-				&mut compression_reader,
-				size,
-				id,
-				flags,
-				version,
-				parse_options,
-				depth,
-			);
-		},
-		// Possible combinations:
-		//
-		// * encrypted
-		FrameFlags {
-			encryption: Some(_),
-			..
-		} => {
-			return handle_encryption(reader, size, id, flags);
-		},
-		// Everything else that doesn't have special flags
-		_ => {
-			return parse_frame(
-				reader,
-				size,
-				id,
-				flags,
-				version,
-				parse_options,
-				depth,
-			);
-		},
+	parse_frame(reader, size, id, flags, version, parse_options, depth)
+}
+
+/// Read a single byte that is present due to one of the frame's flags
+fn read_flag_byte<R>(
+	reader: &mut R,
+	id: &FrameId<'static>,
+	size: &mut u32,
+) -> Result<u8, FrameParseError>
+where
+	R: Read + ?Sized,
+{
+	if *size < 1 {
+		return Err(FrameParseError::undersized(id.clone()));
 	}
+
+	*size -= 1;
+	reader
+		.read_u8()
+		.map_err(|e| FrameParseError::io(Some(id.clone()), e))
 }
 
 #[cfg(feature = "id3v2_compression_support")]
@@ -287,13 +267,16 @@ fn handle_encryption<R: Read>(
 	size: u32,
 	id: FrameId<'static>,
 	flags: FrameFlags,
+	version: Id3v2Version,
 ) -> Result<ParsedFrame<'static>, FrameParseError> {
-	if flags.data_length_indicator.is_none() {
+	// ID3v2.3 only stores the decompressed size of compressed frames
+	if version == Id3v2Version::V4 && flags.data_length_indicator.is_none() {
 		return Err(FrameParseError::missing_data_length_indicator(id));
 	}
 
-	let mut content = try_vec![0; size as usize]?;
-	if let Err(e) = reader.read_exact(&mut content) {
+	// With unsynchronisation, the content may be shorter than the frame
+	let mut content = Vec::try_with_capacity_stable(size as usize)?;
+	if let Err(e) = reader.read_to_end(&mut content) {
 		return Err(FrameParseError::io(Some(id), e));
 	}
 
-- 
2.43.0


From 291ec5dde06af42323a1573d6bbb30e782da1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 036/102] fix: Write only the ID3v2 frame flags that apply to
 the written content

The compression, unsynchronisation and data length indicator flags of a
frame were written for frames that have none of those applied, making them
unreadable. The additional data of encrypted frames was written in the wrong
order, and without the group identifier and the correct frame size.
---
 lofty/src/id3/v2/write/frame.rs | 81 +++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..1bcea3c 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -302,27 +302,29 @@ fn write_frame<W>(
 where
 	W: Write,
 {
+	// Unsynchronized data is never written
+	let mut flags = FrameFlags {
+		unsynchronisation: false,
+		..flags
+	};
+
 	if flags.encryption.is_some() {
-		write_encrypted(writer, name, value, flags, write_options)?;
-		return Ok(());
+		return write_encrypted(writer, name, value, flags, write_options);
 	}
 
-	let len = value.len() as u32;
-	let is_grouping_identity = flags.grouping_identity.is_some();
-
-	write_frame_header(
-		writer,
-		name,
-		if is_grouping_identity { len + 1 } else { len },
-		flags,
-		write_options,
-	)?;
+	// The content is always written as-is, and neither of these apply to it
+	flags.compression = false;
+	flags.data_length_indicator = None;
 
-	if is_grouping_identity {
-		// Guaranteed to be `Some` at this point.
-		writer.write_u8(flags.grouping_identity.unwrap())?;
+	let mut len = value.len() as u32;
+	if flags.grouping_identity.is_some() {
+		len += 1;
 	}
 
+	write_frame_header(writer, name, len, flags, write_options)?;
+	if let Some(group) = flags.grouping_identity {
+		writer.write_u8(group)?;
+	}
 	writer.write_all(value)?;
 
 	Ok(())
@@ -348,24 +350,47 @@ where
 		));
 	}
 
-	if let Some(mut len) = flags.data_length_indicator
-		&& len > 0
-	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
-		if !write_options.use_id3v23 {
-			len = len.synch()?;
+	let data_length = flags.data_length_indicator.filter(|len| *len > 0);
+
+	// The additional data is written in the order that the flags are defined in
+	let mut additional_data = Vec::new();
+	if write_options.use_id3v23 {
+		// ID3v2.3 only has the decompressed size of compressed frames
+		match data_length {
+			Some(len) if flags.compression => additional_data.write_u32::<BigEndian>(len)?,
+			None if flags.compression => {
+				return Err(FrameEncodingError::missing_data_length_indicator(
+					FrameId::Valid(String::from(name).into()),
+				));
+			},
+			_ => {},
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
-		writer.write_u8(method_symbol)?;
-		writer.write_all(value)?;
+		additional_data.write_u8(method_symbol)?;
+		additional_data.extend(flags.grouping_identity);
+	} else {
+		let Some(len) = data_length else {
+			return Err(FrameEncodingError::missing_data_length_indicator(
+				FrameId::Valid(String::from(name).into()),
+			));
+		};
 
-		return Ok(());
+		additional_data.extend(flags.grouping_identity);
+		additional_data.write_u8(method_symbol)?;
+		additional_data.write_u32::<BigEndian>(len.synch()?)?;
 	}
 
-	Err(FrameEncodingError::missing_data_length_indicator(
-		FrameId::Valid(String::from(name).into()),
-	))
+	write_frame_header(
+		writer,
+		name,
+		(value.len() + additional_data.len()) as u32,
+		flags,
+		write_options,
+	)?;
+	writer.write_all(&additional_data)?;
+	writer.write_all(value)?;
+
+	Ok(())
 }
 
 fn write_frame_header<W>(
-- 
2.43.0


From 633a7a8f95ece572897107ee42eaf7508b38d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 037/102] fix: Write ID3v2 tag flags that match the written tag

The extended header was written without its flag being set, so that it was
read as a frame. The unsynchronisation flag was written although the tag never
is, and ID3v2.3 tags could have the footer and the extended header of ID3v2.4.
The restrictions take up 2 bytes, not 3.
---
 lofty/src/id3/v2/header.rs    |  2 +-
 lofty/src/id3/v2/write/mod.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index dc9a491..61d07fa 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,7 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
+			byte |= 0x20;
 		}
 
 		if self.footer {
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 6ba012a..99f2dcf 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -132,9 +132,17 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		return Ok(Vec::new());
 	}
 
+	// Unsynchronized data is never written
+	tag.flags.unsynchronisation = false;
+
 	let is_id3v23 = write_options.use_id3v23;
 	if is_id3v23 {
 		log::debug!("Using ID3v2.3");
+
+		// These were all introduced in ID3v2.4 (ID3v2.3 has a CRC, but in an incompatible extended header)
+		tag.flags.footer = false;
+		tag.flags.crc = false;
+		tag.flags.restrictions = None;
 	}
 
 	let has_footer = tag.flags.footer;
@@ -174,7 +182,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		let mut content_start_idx = 22;
 
 		if has_restrictions {
-			content_start_idx += 3;
+			content_start_idx += 2;
 		}
 
 		// Skip 16 bytes
@@ -237,12 +245,16 @@ fn create_tag_header(
 
 	let extended_header = flags.crc || flags.restrictions.is_some();
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
-- 
2.43.0


From 06e0076d4c2c34bf23694fb1dbfe8309502c8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 038/102] fix: Allow OWNE and ETCO frames to be written

A tag containing either could be read, but no longer saved.
---
 lofty/src/id3/v2/write/frame.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 1bcea3c..471a128 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -278,6 +278,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("PRIV", Frame::Private(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
 		(id, Frame::Text { .. }) if id.starts_with('T') => Ok(()),
-- 
2.43.0


From 947eafef1918089dacad0d6c50e6e06a709eb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 039/102] fix: Write the URL of WXXX frames as Latin-1

As it's read, and as the specification requires.
---
 lofty/src/id3/v2/items/extended_url_frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 7c30778..9d0c947 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -150,7 +150,12 @@ impl<'a> ExtendedUrlFrame<'a> {
 				.encode(&self.description, true, write_options.lossy_text_encoding)?
 				.iter(),
 		);
-		bytes.extend(encoding.encode(&self.content, false, write_options.lossy_text_encoding)?);
+		// The URL is always Latin-1, regardless of the encoding of the description
+		bytes.extend(TextEncoding::Latin1.encode(
+			&self.content,
+			false,
+			write_options.lossy_text_encoding,
+		)?);
 
 		Ok(bytes)
 	}
-- 
2.43.0


From c2be557801c089727aa4003236f5aaf60adda654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 040/102] fix: Upgrade the ID3v2.2 frames TOA and TXT to TOPE
 and TEXT

---
 lofty/src/id3/v2/util/upgrade.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/upgrade.rs b/lofty/src/id3/v2/util/upgrade.rs
index f3b7e0b..c118759 100644
--- a/lofty/src/id3/v2/util/upgrade.rs
+++ b/lofty/src/id3/v2/util/upgrade.rs
@@ -91,7 +91,7 @@ gen_upgrades!(
 		"TLA" => "TLAN",
 		"TLE" => "TLEN",
 		"TMT" => "TMED",
-		"TOA" => "TOAL",
+		"TOA" => "TOPE",
 		"TOF" => "TOFN",
 		"TOL" => "TOLY",
 		"TOR" => "TDOR",
@@ -114,7 +114,7 @@ gen_upgrades!(
 		"TT1" => "TIT1",
 		"TT2" => "TIT2",
 		"TT3" => "TIT3",
-		"TXT" => "TOLY",
+		"TXT" => "TEXT",
 		"TXX" => "TXXX",
 		"TYE" => "TDRC",
 		"UFI" => "UFID",
-- 
2.43.0


From df9a7ef1463aff60e68098cede91359096e60c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 041/102] fix: Retain TDRC frames in ID3v2.3 tags that have a
 complete date

---
 lofty/src/id3/v2/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index d222f37..dbd7175 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -75,6 +75,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 
 	// This is not a TYER frame
 	if year_frame.timestamp.month.is_some() {
+		tag.insert(Frame::Timestamp(year_frame));
 		return;
 	}
 
-- 
2.43.0


From ceb3c291af50e6035929bafa094ed47702ef696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 042/102] fix: Write a bit count that matches the peak volume
 in RVA2 frames

When it didn't match, it was taken from the number of leading ones in the
peak, making the frame unreadable (or overflowing).
---
 .../v2/items/relative_volume_adjustment_frame.rs    | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 38c4344..c0f873b 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -252,18 +252,15 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			}
 
 			if let Some(peak) = &info.peak_volume {
-				if peak.len() > expected_peak_byte_length as usize {
+				// Max out at 255 bits
+				let peak = &peak[..std::cmp::min(peak.len(), 32)];
+				if peak.len() != expected_peak_byte_length as usize {
 					// Recalculate bits representing peak
-					bits_representing_peak = 0;
-
-					// Max out at 255 bits
-					for b in peak.iter().copied().take(32) {
-						bits_representing_peak += b.leading_ones() as u8;
-					}
+					bits_representing_peak = u8::try_from(peak.len() * 8).unwrap_or(u8::MAX);
 				}
 
 				content.push(bits_representing_peak);
-				content.extend(peak.iter().take(32));
+				content.extend(peak);
 			}
 		}
 
-- 
2.43.0


From 10a5c4dd2ae03850d8c3ec9cce24b4906f40db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 043/102] fix: pad the year of ID3v2.3 TYER frames to four
 digits

---
 lofty/src/id3/v2/write/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 471a128..991afaf 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -120,7 +120,7 @@ where
 					new_frames.push(Frame::Text(TextInformationFrame::new(
 						FrameId::Valid("TYER".into()),
 						f.encoding.to_id3v23(),
-						year.to_string(),
+						format!("{year:04}"),
 					)));
 
 					if let (Some(month), Some(day)) = (timestamp.month, timestamp.day) {
-- 
2.43.0


From a9550cf2d1b6e0141543f8389bd7049fdf022803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 044/102] fix: keep both people lists readable when merging
 them into one ID3v2.3 frame

---
 lofty/src/id3/v2/write/frame.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 991afaf..039bb58 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -5,6 +5,7 @@ use crate::id3::v2::tag::GenresIter;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::v2::{Frame, FrameId, Id3v2Version, KeyValueFrame, TextInformationFrame};
 use crate::tag::items::Timestamp;
+use crate::util::text::TextEncoding;
 
 use std::borrow::Cow;
 use std::io::Write;
@@ -204,10 +205,15 @@ where
 					continue;
 				};
 
-				let ipls_frame;
+				let ipls_frame: &mut TextInformationFrame<'_>;
 				match ipls {
 					Some(ref mut frame) => {
 						ipls_frame = frame;
+
+						// One encoding has to be able to represent both lists
+						if ipls_frame.encoding != encoding.to_id3v23() {
+							ipls_frame.encoding = TextEncoding::UTF16;
+						}
 					},
 					None => {
 						ipls = Some(TextInformationFrame::new(
-- 
2.43.0


From a2b09101002e45364b204cf40aab2b33da062c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 045/102] fix: find MPEG frame headers that overlap the end of
 the backwards search window

---
 lofty/src/mpeg/header.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 6f92812..e8e86e3 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -60,8 +60,9 @@ where
 	*pos -= search_bounds;
 	input.seek(SeekFrom::Start(*pos))?;
 
-	let mut buf = Vec::with_capacity(search_bounds as usize);
-	input.take(search_bounds).read_to_end(&mut buf)?;
+	// Frame headers can start within the search bounds, and end past them
+	let mut buf = Vec::with_capacity(search_bounds as usize + 3);
+	input.take(search_bounds + 3).read_to_end(&mut buf)?;
 
 	let mut frame_sync = [0u8; 2];
 	for (i, byte) in buf.iter().rev().enumerate() {
@@ -71,8 +72,8 @@ where
 			continue;
 		}
 
-		let relative_frame_start = (search_bounds as usize) - (i + 1);
-		if relative_frame_start + 4 > buf.len() {
+		let relative_frame_start = buf.len() - (i + 1);
+		if relative_frame_start >= search_bounds as usize || relative_frame_start + 4 > buf.len() {
 			continue;
 		}
 
-- 
2.43.0


From b4608d951c579440d740aa30ca5850d25afdcc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 046/102] fix: exclude the ID3v2 tag from the Musepack stream
 length when tags are not read

---
 lofty/src/musepack/read.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..816e960 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -34,7 +34,7 @@ where
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
 	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +44,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
-- 
2.43.0


From 2a059e26b673bc8d801f0702f415dee7142631ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 047/102] fix: discard unusable RVA2 and UFID frames in relaxed
 mode instead of failing

---
 lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs | 1 +
 lofty/src/id3/v2/items/unique_file_identifier.rs           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index c0f873b..46cba6d 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -183,6 +183,7 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 						channel_type = ChannelType::Other
 					},
 					// Relaxed mode will just discard the frame entirely
+					Err(_) if parse_mode == ParsingMode::Relaxed => return Ok(None),
 					Err(e) => return Err(e.into()),
 				}
 
diff --git a/lofty/src/id3/v2/items/unique_file_identifier.rs b/lofty/src/id3/v2/items/unique_file_identifier.rs
index 7c0e0eb..9e8c5f2 100644
--- a/lofty/src/id3/v2/items/unique_file_identifier.rs
+++ b/lofty/src/id3/v2/items/unique_file_identifier.rs
@@ -92,6 +92,8 @@ impl<'a> UniqueFileIdentifierFrame<'a> {
 				None if parse_mode == ParsingMode::BestAttempt => {
 					owner = String::new();
 				},
+				// Relaxed mode will just discard the frame entirely
+				None if parse_mode == ParsingMode::Relaxed => return Ok(None),
 				None => return Err(FrameParseError::message(None, "empty owner field")),
 			}
 
-- 
2.43.0


From 7a4fafc8dd2ac17347356f0d48cf6101ed04a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 048/102] fix: parse the MP4 audio specific config by bits and
 map channel configurations to counts

---
 lofty/src/mp4/properties.rs | 93 +++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index bcddeee..5d7990e 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -841,19 +841,11 @@ where
 				// if (frequency index == 15)
 				//     24 bits: frequency
 				// 4 bits: channel configuration
-				let byte_a = stsd.read_u8()?;
-				let byte_b = stsd.read_u8()?;
+				let mut config = BitReader::new(stsd);
 
-				let mut object_type = byte_a >> 3;
-				let mut frequency_index = ((byte_a & 0x07) << 1) | (byte_b >> 7);
-				let mut channel_conf = (byte_b >> 3) & 0x0F;
-
-				let mut extended_object_type = false;
+				let mut object_type = config.read_bits(5)? as u8;
 				if object_type == 31 {
-					extended_object_type = true;
-
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
-					frequency_index = (byte_b >> 1) & 0x0F;
+					object_type = 32 + config.read_bits(6)? as u8;
 				}
 
 				properties.extended_audio_object_type = Some(
@@ -861,53 +853,33 @@ where
 						.map_err(|_| AtomParseError::message(None, "invalid audio object type"))?,
 				);
 
-				match frequency_index {
+				match config.read_bits(4)? {
 					// 15 means the sample rate is stored in the next 24 bits
 					0x0F => {
-						let sample_rate;
-						let explicit_sample_rate = stsd.read_u24()?;
-						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
-							let byte_c = stsd.read_u8()?;
-
-							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
-						}
+						let sample_rate = config.read_bits(24)?;
 
 						// Just use the sample rate we already read above if this is invalid
 						if sample_rate > 0 {
 							properties.sample_rate = Some(sample_rate);
 						}
 					},
-					i if i < SAMPLE_RATES.len() as u8 => {
-						properties.sample_rate = Some(SAMPLE_RATES[i as usize]);
-
-						if extended_object_type {
-							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
-						} else {
-							channel_conf = (byte_b >> 3) & 0x0F;
-						}
-					},
-					// Keep the sample rate we read above
-					_ => {},
+					i => properties.sample_rate = Some(SAMPLE_RATES[i as usize]),
 				}
 
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
+				let channel_conf = config.read_bits(4)? as u8;
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					properties.channels = Some(channels_from_configuration(channel_conf));
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
 				if object_type == 36 {
-					let mut ident = [0; 5];
+					// The identifier is aligned to the next byte
+					let mut ident = [0; 4];
 					stsd.read_exact(&mut ident)?;
 
-					if &ident == b"\0ALS\0" {
+					if &ident == b"ALS\0" {
 						properties.sample_rate = Some(stsd.read_u32()?);
 
 						// Sample count
@@ -1043,6 +1015,49 @@ where
 	))
 }
 
+/// Get the number of channels for an MPEG-4 channel configuration
+///
+/// See <https://wiki.multimedia.cx/index.php/MPEG-4_Audio#Channel_Configurations> for the mapping.
+pub(crate) fn channels_from_configuration(channel_configuration: u8) -> u8 {
+	match channel_configuration {
+		7 | 12 | 14 => 8,
+		11 => 7,
+		_ => channel_configuration,
+	}
+}
+
+/// Reads fields that aren't aligned to bytes, most significant bit first
+struct BitReader<'a, R> {
+	reader: &'a mut R,
+	current: u8,
+	remaining: u8,
+}
+
+impl<'a, R: Read> BitReader<'a, R> {
+	fn new(reader: &'a mut R) -> Self {
+		Self {
+			reader,
+			current: 0,
+			remaining: 0,
+		}
+	}
+
+	fn read_bits(&mut self, count: u8) -> std::io::Result<u32> {
+		let mut ret = 0;
+		for _ in 0..count {
+			if self.remaining == 0 {
+				self.current = self.reader.read_u8()?;
+				self.remaining = 8;
+			}
+
+			self.remaining -= 1;
+			ret = (ret << 1) | u32::from((self.current >> self.remaining) & 1);
+		}
+
+		Ok(ret)
+	}
+}
+
 struct Descriptor {
 	tag: u8,
 	_size: u32,
-- 
2.43.0


From 3ed3dd32fd4e659271a61f9902aaef1a0eddfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 049/102] fix: report eight channels for AAC channel
 configuration 7

---
 lofty/src/aac/properties.rs | 10 +++++-----
 lofty/src/mp4/mod.rs        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..e535a3d 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -1,5 +1,5 @@
 use crate::aac::header::ADTSHeader;
-use crate::mp4::AudioObjectType;
+use crate::mp4::{AudioObjectType, channels_from_configuration};
 use crate::mpeg::header::MpegVersion;
 use crate::properties::{ChannelMask, FileProperties};
 
@@ -106,14 +106,14 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	properties.channels = channels_from_configuration(first_frame.channels);
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channels) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
-				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				"Unable to create channel mask, invalid channel configuration: {}",
+				first_frame.channels
 			);
 		},
 	}
diff --git a/lofty/src/mp4/mod.rs b/lofty/src/mp4/mod.rs
index 2e41681..f3cd707 100644
--- a/lofty/src/mp4/mod.rs
+++ b/lofty/src/mp4/mod.rs
@@ -29,7 +29,7 @@ pub use ilst::advisory_rating::AdvisoryRating;
 pub use ilst::atom::{Atom, AtomData};
 pub use ilst::data_type::DataType;
 
-pub(crate) use properties::SAMPLE_RATES;
+pub(crate) use properties::{SAMPLE_RATES, channels_from_configuration};
 
 /// An MP4 file
 #[derive(LoftyFile)]
-- 
2.43.0


From f7a71bd664951f09e5742103d7c1757605ffe19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 050/102] fix: exclude Ogg page overhead of the header packets
 from the Opus audio bitrate

---
 lofty/src/ogg/opus/properties.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 24d50b4..3990e52 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -126,6 +126,9 @@ where
 		properties.channel_mask = channel_mask;
 	}
 
+	// The header packets always end on a page of their own, so the rest is the audio stream
+	let header_end = data.stream_position()?;
+
 	let last_page = find_last_page(data)?;
 	let file_length = data.seek(SeekFrom::End(0))?;
 
@@ -144,13 +147,8 @@ where
 			// Best case scenario
 			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
-			// Get the stream length by subtracting the length of the header packets
-
-			// Safe to unwrap, metadata is checked prior
-			let metadata_packet = packets.get(1).unwrap();
-			let header_size = identification_packet.len() + metadata_packet.len();
-
-			let stream_len = file_length.saturating_sub(header_size as u64);
+			// Get the stream length by subtracting the length of the header pages
+			let stream_len = file_length.saturating_sub(header_end);
 
 			properties.duration = Duration::from_millis(length);
 			if length > 0 {
-- 
2.43.0


From 8b1f98b16896106d065272b8c724bff054a58859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 051/102] fix: read QuickTime version 2 sample entries and
 count every mdat in the MP4 bitrate

---
 lofty/src/mp4/properties.rs       | 29 +++++++++++++++++++----------
 lofty/src/mp4/read/atom_reader.rs |  5 +++++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 5d7990e..f9b78dd 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -620,18 +620,26 @@ where
 				// Bytes per sample (4)
 				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
-				let extension_struct_size = reader.read_u32()?;
+				// The size covers the sample entry from its start (atom header included) up to the
+				// extensions, 72 bytes of which are known
+				const KNOWN_STRUCT_SIZE: u32 = 72;
 
-				// Skipping (at least) 32 bytes
-				// Sample rate 64 (8)
-				// Channel count (4)
+				let struct_size = reader.read_u32()?;
+
+				// The values above are placeholders in this version
+				let sample_rate = reader.read_f64()?;
+				properties.sample_rate = Some(sample_rate as u32);
+				properties.channels = Some(reader.read_u32()? as u8);
+
+				// Skipping (at least) 20 bytes
 				// Reserved (4)
 				// Bits per channel (4)
 				// Format specific flags (4)
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
-				// Struct size (variable)
-				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				// Unknown extra fields (variable)
+				let extra = struct_size.saturating_sub(KNOWN_STRUCT_SIZE);
+				reader.seek(SeekFrom::Current(20 + i64::from(extra)))?;
 			}
 
 			match descriptor_format {
@@ -1002,17 +1010,18 @@ where
 {
 	reader.rewind()?;
 
+	// The media may be spread over any number of `mdat` atoms
+	let mut total = None;
 	while let Some(atom) = reader.next_or_end()? {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - atom.header_size());
+			let content_len = atom.len - atom.header_size();
+			total = Some(total.unwrap_or(0u64).saturating_add(content_len));
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
 	}
 
-	Err(Mp4ParseError::message(
-		"file does not contain an \"mdat\" atom",
-	))
+	total.ok_or_else(|| Mp4ParseError::message("file does not contain an \"mdat\" atom"))
 }
 
 /// Get the number of channels for an MPEG-4 channel configuration
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7aaaad8..18bc268 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -78,6 +78,11 @@ where
 		self.reader.read_u32::<BigEndian>()
 	}
 
+	pub(crate) fn read_f64(&mut self) -> std::io::Result<f64> {
+		self.remaining_size = self.remaining_size.saturating_sub(8);
+		self.reader.read_f64::<BigEndian>()
+	}
+
 	pub(crate) fn read_u64(&mut self) -> std::io::Result<u64> {
 		self.remaining_size = self.remaining_size.saturating_sub(8);
 		self.reader.read_u64::<BigEndian>()
-- 
2.43.0


From 7c9b1a9f320900d5246a0c1c4f84cba7b6cc016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 052/102] fix: detect MPEG and AAC frames that follow the full
 allowance of junk bytes

---
 lofty/src/probe.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..872fbe3 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -403,7 +403,9 @@ impl<R: Read + Seek> Probe<R> {
 	/// Searches for an MPEG/AAC frame sync, which may be preceded by junk bytes
 	fn check_mpeg_or_aac(&mut self, max_junk_bytes: usize) -> std::io::Result<Option<FileType>> {
 		{
-			let mut restricted_reader = self.inner.by_ref().take(max_junk_bytes as u64);
+			// The 2 bytes of the frame sync itself aren't junk
+			let search_window = (max_junk_bytes as u64).saturating_add(2);
+			let mut restricted_reader = self.inner.by_ref().take(search_window);
 			if search_for_frame_sync(&mut restricted_reader)?.is_none() {
 				return Ok(None);
 			}
-- 
2.43.0


From 0c23ca688b32adb0c0a60cb7b517308276962836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 053/102] fix: ignore invalid ID3v2 tags found in junk bytes
 before the first MPEG frame

---
 lofty/src/mpeg/read.rs | 45 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 8e2165b..52c5a08 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -3,12 +3,14 @@ use super::{MpegFile, MpegProperties};
 use crate::ape::tag::header::read_ape_header;
 use crate::config::{ParseOptions, ParsingMode};
 use crate::error::{FakeTagError, SizeMismatchError, TagParseError};
+use crate::id3::v2::Id3v2Tag;
 use crate::id3::v2::header::Id3v2Header;
 use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v1, find_lyrics3v2};
 use crate::io::{ReadExt, SeekStreamLen};
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::HEADER_MASK;
+use crate::util::io::is_io_failure;
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -124,24 +126,11 @@ where
 						allowed_junk_window: Some(search_window_size),
 					};
 
-					if let ID3FindResults(Some(header), Some(id3v2_bytes)) =
-						crate::id3::find_id3v2(reader, config).map_err(TagParseError::from)?
-					{
-						let reader = &mut &*id3v2_bytes;
-
-						let id3v2 = parse_id3v2(reader, header, parse_options)
-							.map_err(TagParseError::from)?;
-
-						if let Some(existing_tag) = &mut file.id3v2_tag {
-							// https://github.com/Serial-ATA/lofty-rs/issues/87
-							// Duplicate tags should have their frames appended to the previous
-							for frame in id3v2.frames {
-								existing_tag.insert(frame);
-							}
-							continue;
-						}
-
-						file.id3v2_tag = Some(id3v2);
+					match read_id3v2_in_junk(reader, config, parse_options) {
+						Ok(id3v2) => file.id3v2_tag = id3v2,
+						Err(e) if is_io_failure(&e) => return Err(e.into()),
+						// Anything can look like a tag in junk bytes, and they'd be skipped otherwise
+						Err(e) => log::warn!("Ignoring invalid ID3v2 tag in junk bytes: {e}"),
 					}
 				}
 
@@ -224,6 +213,26 @@ where
 	Ok(file)
 }
 
+// Reads an ID3v2 tag that is preceded by junk bytes, if there is one
+fn read_id3v2_in_junk<R>(
+	reader: &mut R,
+	config: FindId3v2Config,
+	parse_options: ParseOptions,
+) -> Result<Option<Id3v2Tag>, TagParseError>
+where
+	R: Read + Seek,
+{
+	let ID3FindResults(Some(header), Some(id3v2_bytes)) =
+		crate::id3::find_id3v2(reader, config).map_err(TagParseError::from)?
+	else {
+		return Ok(None);
+	};
+
+	let id3v2 =
+		parse_id3v2(&mut &*id3v2_bytes, header, parse_options).map_err(TagParseError::from)?;
+	Ok(Some(id3v2))
+}
+
 // The offset of the first frame, if there is one
 pub(crate) fn find_first_frame_offset<R>(reader: &mut R) -> std::io::Result<Option<u64>>
 where
-- 
2.43.0


From 3913706d2fc21de6cd70198adbf8d6482326edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 054/102] fix: keep the order of unrelated items when removing
 items from a tag

---
 lofty/src/id3/v2/frame/list.rs | 3 ++-
 lofty/src/mp4/ilst/mod.rs      | 3 ++-
 lofty/src/ogg/tag.rs           | 3 ++-
 lofty/src/tag/mod.rs           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..bf52890 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -331,7 +331,8 @@ impl<'a> FrameList<'a> {
 
 		for read_idx in 0..self.0.len() {
 			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
+				// Moves the item forward, without disturbing the order of the others
+				self.0.to_mut()[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..b1f6b64 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -277,7 +277,8 @@ impl Ilst {
 
 		for read_idx in 0..self.atoms.len() {
 			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
+				// Moves the item forward, without disturbing the order of the others
+				self.atoms[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..b672571 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -308,7 +308,8 @@ impl VorbisComments {
 
 		for read_idx in 0..self.items.len() {
 			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
+				// Moves the item forward, without disturbing the order of the others
+				self.items[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..3000b07 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -471,7 +471,8 @@ impl Tag {
 		for read_idx in 0..self.items.len() {
 			let item = &self.items[read_idx];
 			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
+				// Moves the item forward, without disturbing the order of the others
+				self.items[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
-- 
2.43.0


From bb18ffc338e4b35a81395b91699b01d37cd6f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 055/102] fix: store the date as a timestamp frame in
 Id3v2Tag::set_date

---
 lofty/src/id3/v2/tag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..30d7b44 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -491,7 +491,7 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		self.insert(new_timestamp_frame(RECORDING_TIME_ID, value));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From 2f04dac5ba34b2567a1740c4536f8e9e21ad6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 056/102] fix: treat RIFF INFO keys alike in lookups,
 replacements and removals

---
 lofty/src/iff/wav/tag/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..e133db1 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -33,7 +33,7 @@ macro_rules! impl_accessor {
 				}
 
 				fn [<remove_ $name>](&mut self) {
-					let _ = self.remove($key);
+					self.remove_all($key);
 				}
 			)+
 		}
@@ -85,7 +85,7 @@ impl RiffInfoList {
 	pub fn get(&self, key: &str) -> Option<&str> {
 		self.items
 			.iter()
-			.find(|(k, _)| k == key)
+			.find(|(k, _)| k.eq_ignore_ascii_case(key))
 			.map(|(_, v)| v.as_str())
 	}
 
@@ -101,9 +101,7 @@ impl RiffInfoList {
 
 		if valid_fourcc(fourcc) {
 			self.items
-				.iter()
-				.position(|(k, _)| k.eq_ignore_ascii_case(key.as_str()))
-				.map(|p| self.items.remove(p));
+				.retain(|(k, _)| !k.eq_ignore_ascii_case(key.as_str()));
 			self.items.push((key, value))
 		}
 	}
@@ -124,6 +122,11 @@ impl RiffInfoList {
 
 		None
 	}
+
+	// The keys aren't necessarily unique when the list comes from a file
+	fn remove_all(&mut self, key: &str) {
+		self.items.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
+	}
 }
 
 impl Accessor for RiffInfoList {
@@ -148,7 +151,7 @@ impl Accessor for RiffInfoList {
 	}
 
 	fn remove_track(&mut self) {
-		self.remove("IPRT");
+		self.remove_all("IPRT");
 	}
 
 	fn track_total(&self) -> Option<u32> {
@@ -164,7 +167,7 @@ impl Accessor for RiffInfoList {
 	}
 
 	fn remove_track_total(&mut self) {
-		self.remove("IFRM");
+		self.remove_all("IFRM");
 	}
 
 	fn date(&self) -> Option<Timestamp> {
@@ -180,7 +183,7 @@ impl Accessor for RiffInfoList {
 	}
 
 	fn remove_date(&mut self) {
-		let _ = self.remove("ICRD");
+		self.remove_all("ICRD");
 	}
 }
 
-- 
2.43.0


From 39603045267a52626ad339ac56bacbc52fe57c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 057/102] fix: remove every AIFF comment in
 AiffTextChunks::remove_comment

---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..8646098 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -123,6 +123,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
+		self.comments = None;
 	}
 }
 
-- 
2.43.0


From 130f72b9a11fdb7fd8699388b9555aabf481d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 058/102] fix: let FrameList::insert replace a timestamp frame
 of the same id

---
 lofty/src/id3/v2/frame/list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index bf52890..af95e63 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -251,7 +251,11 @@ impl<'a> FrameList<'a> {
 		let replaced = self
 			.0
 			.iter()
-			.position(|f| f == &frame)
+			.position(|f| match (f, &frame) {
+				// The equality of timestamp frames includes their value
+				(Frame::Timestamp(old), Frame::Timestamp(new)) => old.id() == new.id(),
+				(old, new) => old == new,
+			})
 			.map(|pos| self.0.to_mut().remove(pos));
 
 		self.push(frame);
-- 
2.43.0


From 64baa9846fa03abc8a77980761097da514487d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 059/102] fix: read back ratings whose email contains a
 separator

---
 lofty/src/tag/items/popularimeter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/tag/items/popularimeter.rs b/lofty/src/tag/items/popularimeter.rs
index 4078afa..c6f362f 100644
--- a/lofty/src/tag/items/popularimeter.rs
+++ b/lofty/src/tag/items/popularimeter.rs
@@ -412,13 +412,14 @@ impl<'a> Popularimeter<'a> {
 	}
 
 	pub(crate) fn from_str(s: &str) -> Result<Self, ()> {
-		let mut parts = s.splitn(3, '|');
-		let email = parts.next().ok_or(())?;
-		let star_rating = parts.next().ok_or(())?;
+		// The email is the only part that may contain a separator
+		let mut parts = s.rsplitn(3, '|');
 		let play_counter = parts
 			.next()
 			.ok_or(())
 			.and_then(|p| p.parse::<u64>().map_err(|_| ()))?;
+		let star_rating = parts.next().ok_or(())?;
+		let email = parts.next().ok_or(())?;
 
 		let star_rating = match star_rating.parse().map_err(|_| ())? {
 			1 => StarRating::One,
-- 
2.43.0


From f282fb851d5f2253f5c9c78a85c791889e522399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 060/102] fix: decode the description of APE pictures as UTF-8

---
 lofty/src/picture/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 96abb7c..34ff981 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -926,7 +926,7 @@ impl Picture {
 		let mut pos = 0;
 
 		let mut description = None;
-		let mut desc_text = String::new();
+		let mut desc_bytes = Vec::new();
 
 		while let Ok(ch) = reader.read_u8() {
 			pos += 1;
@@ -935,10 +935,13 @@ impl Picture {
 				break;
 			}
 
-			desc_text.push(char::from(ch));
+			desc_bytes.push(ch);
 		}
 
-		if !desc_text.is_empty() {
+		if !desc_bytes.is_empty() {
+			// The description is UTF-8, anything else is assumed to be Latin-1
+			let desc_text = String::from_utf8(desc_bytes)
+				.unwrap_or_else(|e| e.as_bytes().iter().copied().map(char::from).collect());
 			description = Some(Cow::from(desc_text));
 		}
 
-- 
2.43.0


From 6ae7bf6a6d4bc0e0afeaec672e740f8b2fd77f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 061/102] fix: find every kind of JPEG frame header in
 PictureInformation::from_jpeg

---
 lofty/src/picture/mod.rs | 43 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 34ff981..606438f 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -428,30 +428,27 @@ impl PictureInformation {
 	///
 	/// * `reader` is not a JPEG image
 	/// * `reader` does not contain a `SOFn` frame
-	pub fn from_jpeg(mut data: &[u8]) -> Result<Self, PictureParseError> {
-		let reader = &mut data;
+	pub fn from_jpeg(data: &[u8]) -> Result<Self, PictureParseError> {
+		let mut reader = Cursor::new(data);
 
-		let mut frame_marker = [0; 4];
-		reader.read_exact(&mut frame_marker)?;
+		let mut signature = [0; 3];
+		reader.read_exact(&mut signature)?;
 
-		if !matches!(frame_marker, [0xFF, 0xD8, 0xFF, ..]) {
+		if signature != [0xFF, 0xD8, 0xFF] {
 			return Err(UnknownImageFormatError.into());
 		}
 
-		let mut section_len = reader.read_u16::<BigEndian>()?;
-
-		let mut reader = Cursor::new(reader);
-
-		// The length contains itself, so anything < 2 is invalid
-		let Some(content_len) = section_len.checked_sub(2) else {
-			return Err(NotEnoughDataError::new(Some(2)).into());
-		};
-
-		reader.seek(SeekFrom::Current(i64::from(content_len)))?;
+		// The last byte of the signature belongs to the first marker
+		reader.set_position(2);
 
 		while let Ok(0xFF) = reader.read_u8() {
-			let marker = reader.read_u8()?;
-			section_len = reader.read_u16::<BigEndian>()?;
+			let mut marker = reader.read_u8()?;
+			// Any marker may be preceded by fill bytes
+			while marker == 0xFF {
+				marker = reader.read_u8()?;
+			}
+
+			let section_len = reader.read_u16::<BigEndian>()?;
 
 			// This marks the SOS (Start of Scan), which is
 			// the end of the header
@@ -459,11 +456,12 @@ impl PictureInformation {
 				break;
 			}
 
-			// We are looking for a frame with a "SOFn" marker,
-			// with `n` either being 0 or 2. Since there isn't a
-			// header like PNG, we actually need to search for this
-			// frame
-			if marker == 0xC0 || marker == 0xC2 {
+			// We are looking for a frame with a "SOFn" marker.
+			// Since there isn't a header like PNG, we actually
+			// need to search for this frame.
+			//
+			// 0xC4, 0xC8, and 0xCC are not frames (DHT, JPG, and DAC)
+			if matches!(marker, 0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF) {
 				let precision = reader.read_u8()?;
 				let height = u32::from(reader.read_u16::<BigEndian>()?);
 				let width = u32::from(reader.read_u16::<BigEndian>()?);
@@ -477,6 +475,7 @@ impl PictureInformation {
 				});
 			}
 
+			// The length contains itself, so anything < 2 is invalid
 			let Some(content_len) = section_len.checked_sub(2) else {
 				return Err(NotEnoughDataError::new(Some(2)).into());
 			};
-- 
2.43.0


From ec52e741f34f64d72a4034ca6db703e61dbf47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 062/102] fix: do not give a granule position to pages on which
 no packet ends

---
 ogg_pager/src/paginate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..0931819 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -170,7 +170,8 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		// A full page has no room for the lacing value that ends the packet, it ends on a nil page
+		if packet.is_empty() && ctx.remaining_page_size != 0 {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
-- 
2.43.0


From 378cb826bcd40dda983840c38d3e816544ab4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 063/102] fix: keep empty packets in paginate

---
 ogg_pager/src/paginate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 0931819..7aff0d0 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -199,14 +199,16 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	//
 	// From <https://xiph.org/ogg/doc/framing.html>:
 	// "Note also that a 'nil' (zero length) packet is not an error; it consists of nothing more than a lacing value of zero in the header."
-	if ctx.current_packet_len != 0
-		&& ctx
-			.current_packet_len
-			.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
+	//
+	// This also covers packets with no content at all, which are a single nil page.
+	if ctx
+		.current_packet_len
+		.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
 	{
 		ctx.flags.packet_finished_on_page = true;
 		let mut nil_content = Vec::new();
 		ctx.flush_page(&mut nil_content);
+		ctx.flags.first_page = false;
 	}
 
 	Ok(())
-- 
2.43.0


From 12662ff4c5949834c6e479c9cd32a3ec84835294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 064/102] fix: do not read the total of a number pair as the
 number when the number is missing

---
 lofty/src/ape/tag/mod.rs | 4 ++--
 lofty/src/id3/v2/tag.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..612532a 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -309,8 +309,8 @@ impl ApeTag {
 			..
 		}) = self.get(key)
 		{
-			let mut split = text.split('/').flat_map(str::parse::<u32>);
-			return (split.next(), split.next());
+			let mut split = text.split('/').map(|number| number.parse::<u32>().ok());
+			return (split.next().flatten(), split.next().flatten());
 		}
 
 		(None, None)
diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 30d7b44..bf42654 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -203,8 +203,8 @@ impl Id3v2Tag {
 		if let Some(Frame::Text(TextInformationFrame { value, .. })) = self.get(id) {
 			let mut split = value
 				.split(&[V4_MULTI_VALUE_SEPARATOR, NUMBER_PAIR_SEPARATOR][..])
-				.flat_map(str::parse::<u32>);
-			return (split.next(), split.next());
+				.map(|number| number.parse::<u32>().ok());
+			return (split.next().flatten(), split.next().flatten());
 		}
 
 		(None, None)
-- 
2.43.0


From f8b215a6cb75720d7cd44f28acfc4b853e4cdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 065/102] fix: items without a special case were lost when
 converted to ID3v2, if their frame is a TXXX or they have several values

---
 lofty/src/id3/v2/tag/conversion.rs | 40 +++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..cb77ed8 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -135,7 +135,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -165,6 +164,7 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::MusicBrainzWorkId
 			| ItemKey::MusicBrainzReleaseType
 			| ItemKey::ReleaseCountry
+			| ItemKey::Work
 			| ItemKey::Barcode => {
 				let (value, _) = take_item_text_and_description(item)?;
 
@@ -329,22 +329,32 @@ pub(crate) fn from_tag<'a>(
 
 			// Anything else
 			_ => {
-				if let Some(mapped) = item_key.map_key(TagType::Id3v2)
-					&& mapped.len() == 4
-				{
-					let id = FrameId::new(mapped).ok()?;
-
-					if id.as_str().starts_with('T') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_text_frame(id, value));
-					}
-
-					if id.as_str().starts_with('W') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_url_frame(id, value));
-					}
+				let mapped = item_key.map_key(TagType::Id3v2)?;
+				let (value, _) = take_item_text_and_description(item)?;
+
+				// Numeric frames only have a single value, the others are discarded
+				if matches!(item_key, ItemKey::IntegerBpm | ItemKey::Length) {
+					return Some(new_text_frame(FrameId::new(mapped).ok()?, value));
+				}
+
+				if mapped.len() == 4 && mapped.starts_with('W') {
+					return Some(new_url_frame(FrameId::new(mapped).ok()?, value));
 				}
 
+				// Anything that isn't a frame ID is the description of a TXXX frame
+				let frames;
+				if mapped.len() == 4 && mapped.starts_with('T') {
+					frames = &mut ctx.text_frames;
+				} else {
+					frames = &mut ctx.txxx_frames;
+				}
+
+				frames
+					.entry(mapped)
+					.and_modify(|current| extend_text(current, &value))
+					.or_insert(value);
+
+				// Collected at the end
 				None
 			},
 		}
-- 
2.43.0


From d0d67b456a3960db60f13dc905e61aadaf916296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 066/102] fix: only the first value of a multi-valued ID3v2
 comment or lyrics frame kept its description in Tag

---
 lofty/src/id3/v2/tag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index bf42654..7ff0a6e 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -820,7 +820,7 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				item.set_lang(*language);
 
 				if *description != EMPTY_CONTENT_DESCRIPTOR {
-					item.set_description(std::mem::take(description).into_owned());
+					item.set_description(description.to_string());
 				}
 
 				tag.items.push(item);
-- 
2.43.0


From 19480260351ba55469763b05da77f6bc75865d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 067/102] fix: URL items were dropped when saving or dumping a
 Tag as ID3v2

---
 lofty/src/id3/v2/tag/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index cb77ed8..73b021d 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -83,7 +83,7 @@ pub(crate) fn from_tag<'a>(
 					item_value,
 					..
 				}) => {
-					let Some(text) = item_value.text() else {
+					let Some(text) = item_value.text().or_else(|| item_value.locator()) else {
 						log::warn!("Expected a text item for {item_key:?}");
 						return None;
 					};
-- 
2.43.0


From e364aad02f3acfa954129b681d00470c9aee228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 068/102] fix: movement number and total were lost when
 converted to ID3v2

---
 lofty/src/id3/v2/tag/conversion.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 73b021d..017ae42 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -285,6 +285,15 @@ pub(crate) fn from_tag<'a>(
 				None
 			},
 
+			ItemKey::MovementNumber => {
+				ctx.movement_number = parse_number(&item);
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = parse_number(&item);
+				None
+			},
+
 			ItemKey::MusicBrainzRecordingId => {
 				let (recording_id, _) = take_item_text_and_description(item)?;
 
@@ -381,6 +390,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
@@ -403,6 +414,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = HashSet::with_capacity(items.len());
@@ -456,6 +469,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		FrameId::Valid(Cow::Borrowed("MVIN")),
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames
 }
 
-- 
2.43.0


From 5e0f65e7c9109afb8fd499830d747078a7ba300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 069/102] fix: release, tagging and encoding times became plain
 text frames when converted to ID3v2

---
 lofty/src/id3/v2/tag/conversion.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 017ae42..48578f7 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -248,7 +248,11 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			// Timestamps
-			ItemKey::RecordingDate | ItemKey::OriginalReleaseDate => {
+			ItemKey::RecordingDate
+			| ItemKey::OriginalReleaseDate
+			| ItemKey::ReleaseDate
+			| ItemKey::TaggingTime
+			| ItemKey::EncodingTime => {
 				let (text, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-- 
2.43.0


From 3fc4b0a6e378e6d535a79a890d65d63c87bdc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 070/102] fix: converting a Tag to ID3v2 ordered frames at
 random, and saving one did not extend its people list

---
 lofty/src/id3/v2/tag.rs            |  47 +-------
 lofty/src/id3/v2/tag/conversion.rs | 165 +++++++++++++++++------------
 2 files changed, 101 insertions(+), 111 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 7ff0a6e..2dac595 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -930,49 +930,12 @@ impl MergeTag for SplitTagRemainder {
 
 	fn merge_tag(self, tag: Tag) -> Id3v2Tag {
 		let Self(mut merged) = self;
-		merged.frames.reserve(tag.item_count() as usize);
-
-		for frame in conversion::from_tag(tag.items.into_iter().map(Cow::Owned)) {
-			// Check for an existing TIPL frame, and simply extend the existing list
-			// to retain the current `TextEncoding` and `FrameFlags`.
-			if frame.id_str() == INVOLVED_PEOPLE_LIST_ID {
-				let Some(mut tipl_frame) =
-					merged.take_first(&FrameId::Valid(Cow::Borrowed(INVOLVED_PEOPLE_LIST_ID)))
-				else {
-					merged.frames.push(frame);
-					continue;
-				};
-
-				let Frame::KeyValue(KeyValueFrame {
-					key_value_pairs, ..
-				}) = frame
-				else {
-					unreachable!("Frames validated before this point");
-				};
-
-				if let Frame::KeyValue(KeyValueFrame {
-					key_value_pairs: existing,
-					..
-				}) = &mut tipl_frame
-				{
-					existing.to_mut().extend(key_value_pairs.into_owned());
-				}
-
-				merged.frames.push(tipl_frame);
-				continue;
-			}
 
-			// Safe to push at this point, `from_tag()` already deduplicates
-			merged.frames.push(frame)
-		}
-
-		// Insert all pictures as single frames and deduplicate as needed
-		for picture in tag.pictures {
-			let frame = new_picture_frame(picture);
-			if let Some(replaced) = merged.insert(frame) {
-				log::warn!("Replaced picture frame: {replaced:?}");
-			}
-		}
+		merged.frames = conversion::merge_frames(
+			merged.frames,
+			tag.items.into_iter().map(Cow::Owned),
+			tag.pictures.into_iter().map(new_picture_frame),
+		);
 
 		merged
 	}
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 48578f7..71d9a13 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -4,7 +4,7 @@ use crate::error::FileEncodingError;
 use crate::id3::v2::frame::MUSICBRAINZ_UFID_OWNER;
 use crate::id3::v2::util::pairs::new_number_pair_frame;
 use crate::id3::v2::{
-	AttachedPictureFrame, CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame,
+	AttachedPictureFrame, CommentFrame, Frame, FrameId, FrameList, Id3v2TagFlags, KeyValueFrame,
 	PopularimeterFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
 };
 use crate::io::{FileLike, VerifiedFile};
@@ -12,7 +12,7 @@ use crate::prelude::ItemKey;
 use crate::tag::companion_tag::CompanionTag;
 use crate::tag::{Tag, TagItem, TagType};
 
-use super::V4_MULTI_VALUE_SEPARATOR;
+use super::{INVOLVED_PEOPLE_LIST_ID, V4_MULTI_VALUE_SEPARATOR};
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::{
 	new_text_frame, new_timestamp_frame, new_url_frame, new_user_text_frame,
@@ -24,7 +24,6 @@ use crate::tag::items::{Lang, Timestamp};
 use crate::util::flag_item;
 
 use std::borrow::Cow;
-use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use std::iter::Peekable;
 use std::str::FromStr;
@@ -106,6 +105,18 @@ pub(crate) fn from_tag<'a>(
 			}
 		}
 
+		// There are only a few distinct keys, and the frames are to be kept in the order of the items
+		fn insert_or_extend<'a, K: PartialEq>(
+			frames: &mut Vec<(K, Cow<'a, str>)>,
+			key: K,
+			value: Cow<'a, str>,
+		) {
+			match frames.iter_mut().find(|(k, _)| *k == key) {
+				Some((_, current)) => extend_text(current, &value),
+				None => frames.push((key, value)),
+			}
+		}
+
 		fn parse_number(item: &TagItem) -> Option<u32> {
 			let text = item.item_value.text()?;
 			text.parse().ok()
@@ -143,10 +154,7 @@ pub(crate) fn from_tag<'a>(
 				let (value, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-				ctx.text_frames
-					.entry(frame_id)
-					.and_modify(|current| extend_text(current, &value))
-					.or_insert(value);
+				insert_or_extend(&mut ctx.text_frames, frame_id, value);
 
 				// Collected at the end
 				None
@@ -169,10 +177,7 @@ pub(crate) fn from_tag<'a>(
 				let (value, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-				ctx.txxx_frames
-					.entry(frame_id)
-					.and_modify(|current| extend_text(current, &value))
-					.or_insert(value);
+				insert_or_extend(&mut ctx.txxx_frames, frame_id, value);
 
 				// Collected at the end
 				None
@@ -186,7 +191,8 @@ pub(crate) fn from_tag<'a>(
 				let (value, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-				ctx.txxx_frames.insert(frame_id, value);
+				ctx.txxx_frames.retain(|(id, _)| *id != frame_id);
+				ctx.txxx_frames.push((frame_id, value));
 
 				// Collected at the end
 				None
@@ -204,9 +210,7 @@ pub(crate) fn from_tag<'a>(
 					_ => unreachable!(),
 				}
 
-				map.entry(LanguageAndDescription { lang, description })
-					.and_modify(|current| extend_text(current, &value))
-					.or_insert(value);
+				insert_or_extend(map, LanguageAndDescription { lang, description }, value);
 
 				// Collected at the end
 				None
@@ -362,10 +366,7 @@ pub(crate) fn from_tag<'a>(
 					frames = &mut ctx.txxx_frames;
 				}
 
-				frames
-					.entry(mapped)
-					.and_modify(|current| extend_text(current, &value))
-					.or_insert(value);
+				insert_or_extend(frames, mapped, value);
 
 				// Collected at the end
 				None
@@ -378,16 +379,16 @@ pub(crate) fn from_tag<'a>(
 
 		// Mappings for text frames that can have multiple values. The values are `Cow`, since there
 		// will only be an allocation if there are multiple occurrences of a single item.
-		text_frames: HashMap<&'static str, Cow<'a, str>>,
-		txxx_frames: HashMap<&'static str, Cow<'a, str>>,
+		text_frames: Vec<(&'static str, Cow<'a, str>)>,
+		txxx_frames: Vec<(&'static str, Cow<'a, str>)>,
 
 		// Then frames with languages are special, as they need to be distinguished by both their description
 		// and their language.
 		//
 		// Like normal text frames, there will only be an allocation if there are multiple frames with
 		// the same language and description.
-		comments: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
-		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
+		comments: Vec<(LanguageAndDescription<'a>, Cow<'a, str>)>,
+		unsync_text: Vec<(LanguageAndDescription<'a>, Cow<'a, str>)>,
 
 		// Number frames need to be merged
 		track_number: Option<u32>,
@@ -398,7 +399,7 @@ pub(crate) fn from_tag<'a>(
 		movement_total: Option<u32>,
 	}
 
-	#[derive(Hash, PartialEq, Eq)]
+	#[derive(PartialEq, Eq)]
 	struct LanguageAndDescription<'a> {
 		lang: Lang,
 		description: Cow<'a, str>,
@@ -410,10 +411,10 @@ pub(crate) fn from_tag<'a>(
 			TextEncoding::UTF8,
 			Vec::new(),
 		),
-		text_frames: HashMap::new(),
-		txxx_frames: HashMap::new(),
-		comments: HashMap::new(),
-		unsync_text: HashMap::new(),
+		text_frames: Vec::new(),
+		txxx_frames: Vec::new(),
+		comments: Vec::new(),
+		unsync_text: Vec::new(),
 		track_number: None,
 		track_total: None,
 		disc_number: None,
@@ -422,30 +423,32 @@ pub(crate) fn from_tag<'a>(
 		movement_total: None,
 	};
 
-	let mut frames = HashSet::with_capacity(items.len());
+	let mut frames = Vec::with_capacity(items.len());
 	for item in items {
-		if let Some(frame) = item_to_frame(&mut ctx, item) {
-			frames.insert(frame);
+		if let Some(frame) = item_to_frame(&mut ctx, item)
+			&& !frames.contains(&frame)
+		{
+			frames.push(frame);
 		}
 	}
 
 	if !ctx.tipl.key_value_pairs.is_empty() {
-		frames.insert(Frame::KeyValue(ctx.tipl));
+		frames.push(Frame::KeyValue(ctx.tipl));
 	}
 
 	for (frame_id, frame_value) in ctx.text_frames {
-		frames.insert(new_text_frame(
+		frames.push(new_text_frame(
 			FrameId::Valid(Cow::Borrowed(frame_id)),
 			frame_value,
 		));
 	}
 
 	for (frame_id, frame_value) in ctx.txxx_frames {
-		frames.insert(new_user_text_frame(Cow::Borrowed(frame_id), frame_value));
+		frames.push(new_user_text_frame(Cow::Borrowed(frame_id), frame_value));
 	}
 
 	for (LanguageAndDescription { lang, description }, content) in ctx.comments {
-		frames.insert(Frame::Comment(CommentFrame::new(
+		frames.push(Frame::Comment(CommentFrame::new(
 			TextEncoding::UTF8,
 			lang,
 			description,
@@ -454,7 +457,7 @@ pub(crate) fn from_tag<'a>(
 	}
 
 	for (LanguageAndDescription { lang, description }, content) in ctx.unsync_text {
-		frames.insert(Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(
+		frames.push(Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(
 			TextEncoding::UTF8,
 			lang,
 			description,
@@ -465,12 +468,12 @@ pub(crate) fn from_tag<'a>(
 	if let Some(track_frame) =
 		new_number_pair_frame(super::TRACK_ID, ctx.track_number, ctx.track_total)
 	{
-		frames.insert(track_frame);
+		frames.push(track_frame);
 	}
 
 	if let Some(disc_frame) = new_number_pair_frame(super::DISC_ID, ctx.disc_number, ctx.disc_total)
 	{
-		frames.insert(disc_frame);
+		frames.push(disc_frame);
 	}
 
 	if let Some(movement_frame) = new_number_pair_frame(
@@ -478,55 +481,79 @@ pub(crate) fn from_tag<'a>(
 		ctx.movement_number,
 		ctx.movement_total,
 	) {
-		frames.insert(movement_frame);
+		frames.push(movement_frame);
 	}
 
 	frames
 }
 
-// Create an iterator of FrameRef from a Tag's items for Id3v2TagRef::new
-pub(crate) fn tag_frames(tag: &Tag) -> impl Iterator<Item = Frame<'_>> {
-	#[derive(Clone)]
-	enum CompanionTagIter<F, E> {
-		Filled(F),
-		Empty(E),
-	}
-
-	impl<'a, I> Iterator for CompanionTagIter<I, std::iter::Empty<Frame<'_>>>
-	where
-		I: Iterator<Item = Frame<'a>>,
-	{
-		type Item = Frame<'a>;
-
-		fn next(&mut self) -> Option<Self::Item> {
-			match self {
-				CompanionTagIter::Filled(iter) => iter.next(),
-				CompanionTagIter::Empty(_) => None,
+/// Add the frames of a [`Tag`] to those that were retained from a previous conversion
+///
+/// Like [`from_tag()`], this is shared by the `MergeTag` impl and `Tag::save_to()`.
+pub(crate) fn merge_frames<'a>(
+	mut retained: FrameList<'a>,
+	items: impl ExactSizeIterator<Item = Cow<'a, TagItem>>,
+	pictures: impl Iterator<Item = Frame<'a>>,
+) -> FrameList<'a> {
+	retained.reserve(items.len());
+
+	for frame in from_tag(items) {
+		// Check for an existing TIPL frame, and simply extend the existing list
+		// to retain the current `TextEncoding` and `FrameFlags`.
+		if frame.id_str() == INVOLVED_PEOPLE_LIST_ID {
+			let Some(mut tipl_frame) =
+				retained.take_first(&FrameId::Valid(Cow::Borrowed(INVOLVED_PEOPLE_LIST_ID)))
+			else {
+				retained.push(frame);
+				continue;
+			};
+
+			let Frame::KeyValue(KeyValueFrame {
+				key_value_pairs, ..
+			}) = frame
+			else {
+				unreachable!("Frames validated before this point");
+			};
+
+			if let Frame::KeyValue(KeyValueFrame {
+				key_value_pairs: existing,
+				..
+			}) = &mut tipl_frame
+			{
+				existing.to_mut().extend(key_value_pairs.into_owned());
 			}
+
+			retained.push(tipl_frame);
+			continue;
 		}
+
+		// Safe to push at this point, `from_tag()` already deduplicates
+		retained.push(frame)
 	}
 
-	fn create_framerefs_for_companion_tag(
-		companion: Option<&CompanionTag>,
-	) -> impl IntoIterator<Item = Frame<'_>> + Clone {
-		match companion {
-			Some(CompanionTag::Id3v2(companion)) => {
-				CompanionTagIter::Filled(companion.frames.iter().map(Frame::borrow))
-			},
-			_ => CompanionTagIter::Empty(std::iter::empty()),
+	// Insert all pictures as single frames and deduplicate as needed
+	for frame in pictures {
+		if let Some(replaced) = retained.insert(frame) {
+			log::warn!("Replaced picture frame: {replaced:?}");
 		}
 	}
 
-	let items = from_tag(tag.items().map(Cow::Borrowed)).into_iter().chain(
-		create_framerefs_for_companion_tag(tag.companion_tag.as_ref()),
-	);
+	retained
+}
+
+// Create an iterator of the frames of a Tag for Id3v2TagRef::new
+pub(crate) fn tag_frames(tag: &Tag) -> impl Iterator<Item = Frame<'_>> {
+	let mut retained = FrameList::new();
+	if let Some(CompanionTag::Id3v2(companion)) = &tag.companion_tag {
+		retained = companion.frames.borrow();
+	}
 
 	let pictures = tag
 		.pictures()
 		.iter()
 		.map(|p| Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, p)));
 
-	items.chain(pictures)
+	merge_frames(retained, tag.items().map(Cow::Borrowed), pictures).into_iter()
 }
 
 impl<'a, I: Iterator<Item = Frame<'a>> + 'a> Id3v2TagRef<'a, I> {
-- 
2.43.0


From 748f8f455cef412bde378feedfdd284be4010483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 071/102] fix: APE tags saved from a Tag had duplicate keys and
 unnormalised flags, and converted ones lost track texts

---
 lofty/src/ape/tag/mod.rs           | 58 +++++++++---------------------
 lofty/src/id3/v2/tag/conversion.rs | 19 ++++------
 lofty/src/tag/utils.rs             | 11 ++----
 lofty_attr/src/internal.rs         |  5 +--
 4 files changed, 29 insertions(+), 64 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 612532a..38f380d 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -8,8 +8,7 @@ use crate::ape::tag::error::ApeTagEncodingError;
 use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
-use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair, set_number};
-use crate::tag::item::ItemValueRef;
+use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -271,11 +270,6 @@ impl ApeTag {
 
 	fn insert_item(&mut self, item: TagItem) {
 		match item.key() {
-			ItemKey::TrackNumber => set_number(&item, |number| self.set_track(number)),
-			ItemKey::TrackTotal => set_number(&item, |number| self.set_track_total(number)),
-			ItemKey::DiscNumber => set_number(&item, |number| self.set_disk(number)),
-			ItemKey::DiscTotal => set_number(&item, |number| self.set_disk_total(number)),
-
 			// Normalize flag items
 			ItemKey::FlagCompilation => {
 				let Some(text) = item.item_value.text() else {
@@ -555,7 +549,7 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
@@ -602,7 +596,21 @@ impl MergeTag for SplitTagRemainder {
 	fn merge_tag(self, tag: Tag) -> Self::Merged {
 		let Self(mut merged) = self;
 
+		// These are kept as they are, as they need not be numbers (e.g. "A1")
+		for (key, number, total) in [
+			("Track", ItemKey::TrackNumber, ItemKey::TrackTotal),
+			("Disc", ItemKey::DiscNumber, ItemKey::DiscTotal),
+		] {
+			if let Some(pair) = format_number_pair(tag.get_string(number), tag.get_string(total)) {
+				merged.insert(ApeItem::text(key, pair));
+			}
+		}
+
 		for item in tag.items {
+			if NUMBER_PAIR_KEYS.contains(&item.key()) {
+				continue;
+			}
+
 			merged.insert_item(item);
 		}
 
@@ -666,40 +674,6 @@ where
 	}
 }
 
-pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_>> {
-	fn create_apeitemref_for_number_pair<'a>(
-		number: Option<&str>,
-		total: Option<&str>,
-		key: &'a str,
-	) -> Option<ApeItemRef<'a>> {
-		format_number_pair(number, total).map(|value| ApeItemRef {
-			read_only: false,
-			key,
-			value: ItemValueRef::Text(Cow::Owned(value)),
-		})
-	}
-
-	tag.items()
-		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
-		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
-				read_only: false,
-				key,
-				value: (&i.item_value).into(),
-			})
-		})
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::TrackNumber),
-			tag.get_string(ItemKey::TrackTotal),
-			"Track",
-		))
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::DiscNumber),
-			tag.get_string(ItemKey::DiscTotal),
-			"Disc",
-		))
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::ape::{ApeItem, ApeTag};
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 71d9a13..5169636 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -2,7 +2,7 @@ use crate::TextEncoding;
 use crate::config::WriteOptions;
 use crate::error::FileEncodingError;
 use crate::id3::v2::frame::MUSICBRAINZ_UFID_OWNER;
-use crate::id3::v2::util::pairs::new_number_pair_frame;
+use crate::id3::v2::util::pairs::{new_number_pair_frame, set_number};
 use crate::id3::v2::{
 	AttachedPictureFrame, CommentFrame, Frame, FrameId, FrameList, Id3v2TagFlags, KeyValueFrame,
 	PopularimeterFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
@@ -117,11 +117,6 @@ pub(crate) fn from_tag<'a>(
 			}
 		}
 
-		fn parse_number(item: &TagItem) -> Option<u32> {
-			let text = item.item_value.text()?;
-			text.parse().ok()
-		}
-
 		let item_key = item.key();
 		match item_key {
 			// Multi-valued text key-to-frame mappings
@@ -277,28 +272,28 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			ItemKey::TrackNumber => {
-				ctx.track_number = parse_number(&item);
+				set_number(&item, |number| ctx.track_number = Some(number));
 				None
 			},
 			ItemKey::TrackTotal => {
-				ctx.track_total = parse_number(&item);
+				set_number(&item, |number| ctx.track_total = Some(number));
 				None
 			},
 			ItemKey::DiscNumber => {
-				ctx.disc_number = parse_number(&item);
+				set_number(&item, |number| ctx.disc_number = Some(number));
 				None
 			},
 			ItemKey::DiscTotal => {
-				ctx.disc_total = parse_number(&item);
+				set_number(&item, |number| ctx.disc_total = Some(number));
 				None
 			},
 
 			ItemKey::MovementNumber => {
-				ctx.movement_number = parse_number(&item);
+				set_number(&item, |number| ctx.movement_number = Some(number));
 				None
 			},
 			ItemKey::MovementTotal => {
-				ctx.movement_total = parse_number(&item);
+				set_number(&item, |number| ctx.movement_total = Some(number));
 				None
 			},
 
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 1085919..1ef241c 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -7,10 +7,10 @@ use crate::id3::v2::{self, Id3v2TagFlags};
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
 use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
-use crate::tag::{Tag, TagType};
+use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
-use ape::tag::ApeTagRef;
+use ape::ApeTag;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
@@ -54,12 +54,7 @@ pub(crate) fn dump_tag<W: Write>(
 	write_options: WriteOptions,
 ) -> Result<(), TagEncodingError> {
 	match tag.tag_type() {
-		TagType::Ape => ApeTagRef {
-			read_only: false,
-			items: ape::tag::tagitems_into_ape(tag),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::Ape => Into::<ApeTag>::into(tag.clone()).dump_to(writer, write_options),
 		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 996aba7..ed51188 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -43,9 +43,10 @@ pub(crate) fn init_write_lookup(
 	}
 
 	insert!(map, Ape, {
+		let ape = Into::<lofty::ape::ApeTag>::into(tag.clone());
 		lofty::ape::tag::ApeTagRef {
-			read_only: false,
-			items: lofty::ape::tag::tagitems_into_ape(tag),
+			read_only: ape.read_only,
+			items: (&ape).into_iter().map(Into::into),
 		}
 		.write_to(file, write_options)
 	});
-- 
2.43.0


From ca3fcab8921ae9ab70f16af124b5693abbd76272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 072/102] fix: Vorbis comments saved from a Tag had unmapped
 ratings and flags, and converted ones lost bare ratings and unparsed pictures

---
 lofty/src/flac/write.rs    | 14 +++-------
 lofty/src/ogg/tag.rs       | 52 ++++++++++++++------------------------
 lofty/src/ogg/tag/write.rs | 14 +++-------
 lofty/src/tag/utils.rs     | 15 ++---------
 4 files changed, 27 insertions(+), 68 deletions(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 92af60f..753c0d1 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -5,9 +5,9 @@ use crate::error::{FileEncodingError, FileParseError, SizeMismatchError, TagPars
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Length, VerifiedFile};
 use crate::macros::try_vec;
-use crate::ogg::tag::VorbisCommentsRef;
+use crate::ogg::tag::{VorbisCommentsRef, vorbis_comments_from_tag};
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::{Tag, TagType};
+use crate::tag::{Tag, TagType, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -27,15 +27,7 @@ where
 {
 	match tag.tag_type() {
 		TagType::VorbisComments => {
-			let (vendor, items, pictures) = crate::ogg::tag::create_vorbis_comments_ref(tag);
-
-			let mut comments_ref = VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			};
-
-			write_to_inner(file, &mut comments_ref, write_options)
+			TagWriteExt::save_to(&vorbis_comments_from_tag(tag), file, write_options)
 		},
 		// This tag can *only* be removed in this format
 		TagType::Id3v2 => {
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b672571..f99b21b 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -544,15 +544,10 @@ impl SplitTag for VorbisComments {
 
 		self.items.retain_mut(|(k, v)| {
 			let key;
+			let (field, email) = k.split_once(':').unwrap_or((k.as_str(), ""));
 			match ItemKey::from_key(TagType::VorbisComments, k) {
-				Some(k) => key = k,
-				// Special case for ratings with associated emails (RATING:foo@example.com). Ratings
-				// without emails are handled by `ItemKey::from_key`.
-				None if k.starts_with("RATING:") => {
-					let Some((_, email)) = k.split_once(':') else {
-						return ITEM_RETAINED;
-					};
-
+				// Special case for ratings, which may have associated emails (RATING:foo@example.com)
+				_ if field.eq_ignore_ascii_case("RATING") => {
 					let Ok(value) = v.parse::<u8>() else {
 						log::warn!(
 							"Unable to parse popularimeter rating during tag split, retaining"
@@ -577,6 +572,7 @@ impl SplitTag for VorbisComments {
 					));
 					return ITEM_CONSUMED;
 				},
+				Some(k) => key = k,
 				None => return ITEM_RETAINED,
 			}
 
@@ -668,9 +664,8 @@ impl MergeTag for SplitTagRemainder {
 		}
 
 		for picture in tag.pictures {
-			if let Ok(information) = PictureInformation::from_picture(&picture) {
-				merged.pictures.push((picture, information))
-			}
+			let information = PictureInformation::from_picture(&picture).unwrap_or_default();
+			merged.pictures.push((picture, information))
 		}
 
 		merged
@@ -731,28 +726,19 @@ where
 	}
 }
 
-pub(crate) fn create_vorbis_comments_ref(
-	tag: &Tag,
-) -> (
-	&str,
-	impl Iterator<Item = (&str, &str)>,
-	impl Iterator<Item = (&Picture, PictureInformation)>,
-) {
-	let vendor = tag.get_string(ItemKey::EncoderSoftware).unwrap_or("");
-
-	let items = tag.items.iter().filter_map(|i| match i.value() {
-		ItemValue::Text(val) | ItemValue::Locator(val) => i
-			.key()
-			.map_key(TagType::VorbisComments)
-			.map(|key| (key, val.as_str())),
-		_ => None,
-	});
-
-	let pictures = tag
-		.pictures
-		.iter()
-		.map(|p| (p, PictureInformation::from_picture(p).unwrap_or_default()));
-	(vendor, items, pictures)
+/// Converts a [`Tag`] in order to write it
+///
+/// When writing, the vendor string of the file is retained. The software has to be stored as an item
+/// to not lose it.
+pub(crate) fn vorbis_comments_from_tag(tag: &Tag) -> VorbisComments {
+	let mut comments = VorbisComments::from(tag.clone());
+	if let Some(key) = ItemKey::EncoderSoftware.map_key(TagType::VorbisComments) {
+		for value in tag.get_strings(ItemKey::EncoderSoftware) {
+			comments.items.push((key.to_string(), value.to_string()));
+		}
+	}
+
+	comments
 }
 
 #[cfg(test)]
diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index 00ab3d3..59f5257 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -5,10 +5,10 @@ use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
 use crate::ogg::constants::{OPUSTAGS, VORBIS_COMMENT_HEAD};
 use crate::ogg::tag::error::VorbisCommentsEncodingError;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::{VorbisCommentsRef, vorbis_comments_from_tag};
 use crate::ogg::verify_signature;
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::Tag;
+use crate::tag::{Tag, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -25,15 +25,7 @@ pub(crate) fn write_to<F>(
 where
 	F: FileLike,
 {
-	let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-	let mut comments_ref = VorbisCommentsRef {
-		vendor: Cow::from(vendor),
-		items,
-		pictures,
-	};
-
-	write(file, &mut comments_ref, write_options)
+	TagWriteExt::save_to(&vorbis_comments_from_tag(tag), file, write_options)
 }
 
 pub(in crate::ogg) fn write<'a, F, II, IP>(
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 1ef241c..5f528e0 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -6,7 +6,7 @@ use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::{self, Id3v2TagFlags};
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::vorbis_comments_from_tag;
 use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
@@ -14,7 +14,6 @@ use ape::ApeTag;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
-use std::borrow::Cow;
 use std::io::Write;
 
 #[allow(unreachable_patterns)]
@@ -68,17 +67,7 @@ pub(crate) fn dump_tag<W: Write>(
 			.as_ref()
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
-		TagType::VorbisComments => {
-			let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-			VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			}
-			.dump_to(writer, write_options)
-			.map_err(Into::into)
-		},
+		TagType::VorbisComments => vorbis_comments_from_tag(tag).dump_to(writer, write_options),
 		TagType::RiffInfo => RIFFInfoListRef {
 			items: iff::wav::tag::tagitems_into_riff(tag.items()),
 		}
-- 
2.43.0


From 820928c6c4d68bc2da03f528575b05faa114a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 073/102] fix: unmapped RIFF INFO items and some ilst atom
 values were lost splitting a tag, and RIFF ratings were not converted

---
 lofty/src/iff/wav/tag/mod.rs | 80 +++++++++++++++++++++++-------------
 lofty/src/mp4/ilst/mod.rs    | 39 ++++++++----------
 2 files changed, 69 insertions(+), 50 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index e133db1..891f397 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -264,14 +264,42 @@ impl TagWriteExt for RiffInfoList {
 	}
 }
 
+/// Remainder from a [`RiffInfoList`] tag split
+///
+/// See [`SplitTag`]
 #[derive(Debug, Clone, Default)]
-pub struct SplitTagRemainder;
+pub struct SplitTagRemainder(RiffInfoList);
 
 impl SplitTag for RiffInfoList {
 	type Remainder = SplitTagRemainder;
 
-	fn split_tag(self) -> (Self::Remainder, Tag) {
-		(SplitTagRemainder, self.into())
+	fn split_tag(mut self) -> (Self::Remainder, Tag) {
+		const ITEM_RETAINED: bool = true;
+		const ITEM_CONSUMED: bool = false;
+
+		let mut tag = Tag::new(TagType::RiffInfo);
+
+		self.items.retain_mut(|(k, v)| {
+			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, k) else {
+				return ITEM_RETAINED;
+			};
+
+			let mut text = v.trim_matches('\0').to_string();
+
+			// There are no emails or play counters in RIFF INFO, only a rating
+			if item_key == ItemKey::Popularimeter
+				&& let Ok(rating) = text.parse::<u8>()
+				&& let Some(popm) = Popularimeter::mapped("", TagType::RiffInfo, rating, 0)
+			{
+				text = popm.to_string();
+			}
+
+			tag.items
+				.push(TagItem::new(item_key, ItemValue::Text(text)));
+			ITEM_CONSUMED
+		});
+
+		(SplitTagRemainder(self), tag)
 	}
 }
 
@@ -279,42 +307,36 @@ impl MergeTag for SplitTagRemainder {
 	type Merged = RiffInfoList;
 
 	fn merge_tag(self, tag: Tag) -> Self::Merged {
-		tag.into()
+		let Self(mut merged) = self;
+
+		for item in tag.items {
+			if let ItemValue::Text(mut val) | ItemValue::Locator(mut val) = item.item_value
+				&& let Some(key) = item.item_key.map_key(TagType::RiffInfo)
+			{
+				if item.item_key == ItemKey::Popularimeter
+					&& let Ok(popm) = Popularimeter::from_str(&val)
+					&& popm.email().is_none()
+				{
+					val = popm.mapped_value(TagType::RiffInfo).to_string();
+				}
+
+				merged.items.push((key.to_string(), val))
+			}
+		}
+
+		merged
 	}
 }
 
 impl From<RiffInfoList> for Tag {
 	fn from(input: RiffInfoList) -> Self {
-		let mut tag = Self::new(TagType::RiffInfo);
-
-		for (k, v) in input.items {
-			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, &k) else {
-				continue;
-			};
-
-			tag.items.push(TagItem::new(
-				item_key,
-				ItemValue::Text(v.trim_matches('\0').to_string()),
-			));
-		}
-
-		tag
+		input.split_tag().1
 	}
 }
 
 impl From<Tag> for RiffInfoList {
 	fn from(input: Tag) -> Self {
-		let mut riff_info = RiffInfoList::default();
-
-		for item in input.items {
-			if let ItemValue::Text(val) | ItemValue::Locator(val) = item.item_value
-				&& let Some(key) = item.item_key.map_key(TagType::RiffInfo)
-			{
-				riff_info.items.push((key.to_string(), val))
-			}
-		}
-
-		riff_info
+		SplitTagRemainder::default().merge_tag(input)
 	}
 }
 
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index b1f6b64..885f72f 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -711,30 +711,27 @@ impl SplitTag for Ilst {
 			// was consumed. If so, we can discard the entire atom. Otherwise, we'll still need to keep
 			// it around for later
 			let atom_retained = data.retain_mut(|val| {
-				match val {
-					AtomData::UTF8(text) | AtomData::UTF16(text) => {
-						if let ItemKeyMapping::Mapped(key) = &key {
-							tag.items
-								.push(TagItem::new(*key, ItemValue::Text(std::mem::take(text))));
-						}
+				match (&key, val) {
+					(ItemKeyMapping::Mapped(key), AtomData::UTF8(text) | AtomData::UTF16(text)) => {
+						tag.items
+							.push(TagItem::new(*key, ItemValue::Text(std::mem::take(text))));
 					},
-					AtomData::Bool(b) => {
-						if let ItemKeyMapping::Mapped(key) = &key {
-							let text = if *b { "1".to_owned() } else { "0".to_owned() };
-							tag.items.push(TagItem::new(*key, ItemValue::Text(text)));
-						}
+					(ItemKeyMapping::Mapped(key), AtomData::Bool(b)) => {
+						let text = if *b { "1".to_owned() } else { "0".to_owned() };
+						tag.items.push(TagItem::new(*key, ItemValue::Text(text)));
 					},
-					AtomData::Picture(picture) => {
-						if let ItemKeyMapping::Picture = key {
-							tag.pictures
-								.push(std::mem::replace(picture, Picture::EMPTY));
-						}
+					(ItemKeyMapping::Picture, AtomData::Picture(picture)) => {
+						tag.pictures
+							.push(std::mem::replace(picture, Picture::EMPTY));
 					},
 					// We have to special case track/disc numbers since they are stored together
-					AtomData::Unknown {
-						code: DataType::Reserved,
-						data,
-					} if data.len() >= 6 => {
+					(
+						_,
+						AtomData::Unknown {
+							code: DataType::Reserved,
+							data,
+						},
+					) if data.len() >= 6 => {
 						let (number_key, total_key) = if *ident == TRACK_NUMBER {
 							(ItemKey::TrackNumber, ItemKey::TrackTotal)
 						} else if *ident == DISC_NUMBER {
@@ -809,7 +806,7 @@ impl MergeTag for SplitTagRemainder {
 			let key = item.item_key;
 
 			if let Ok(ident) = TryInto::<AtomIdent<'_>>::try_into(&key) {
-				let ItemValue::Text(text) = item.item_value else {
+				let (ItemValue::Text(text) | ItemValue::Locator(text)) = item.item_value else {
 					continue;
 				};
 
-- 
2.43.0


From 287a9bcfff6d296ebb0914e27e9e72880bc327f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 074/102] fix: ID3v2 tags with the podcast flag could not be
 written, and RIFF ratings depended on the email they lose

---
 lofty/src/id3/v2/frame/content.rs | 10 ++++++++++
 lofty/src/id3/v2/write/frame.rs   |  2 +-
 lofty/src/iff/wav/tag/mod.rs      |  2 ++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index e955bd7..c3cb250 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -68,6 +68,16 @@ pub(super) fn parse_content<R: Read>(
 		"GRP1" | "MVNM" | "MVIN" => TextInformationFrame::parse(reader, id, flags, version)
 			.transpose()?
 			.map(Frame::Text),
+		// The podcast flag is either a 4 byte integer, or text when converted from a generic `Tag`
+		"PCST" => {
+			let binary = match BinaryFrame::parse(reader, id.clone(), flags) {
+				Ok(binary) if binary.data.len() != 4 => binary,
+				other => return Some(other.map(Frame::Binary)),
+			};
+			TextInformationFrame::parse(&mut &*binary.data, id, flags, version)
+				.transpose()?
+				.map(Frame::Text)
+		},
 		i if i.starts_with('W') => UrlLinkFrame::parse(reader, id, flags)
 			.transpose()?
 			.map(Frame::Url),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 039bb58..cfc498b 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -280,7 +280,7 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("UFID", Frame::UniqueFileIdentifier(_))
 		| ("POPM", Frame::Popularimeter(_))
 		| ("TIPL" | "TMCL", Frame::KeyValue { .. })
-		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
+		| ("WFED" | "GRP1" | "MVNM" | "MVIN" | "PCST", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("PRIV", Frame::Private(_))
diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 891f397..6651463 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -397,6 +397,8 @@ pub(crate) fn tagitems_into_riff<'a>(
 				return None;
 			};
 
+			// There are no emails in RIFF INFO, so the value can't depend on it
+			let popm = Popularimeter::custom("", popm.rating, popm.play_counter);
 			return Some((
 				key,
 				Cow::Owned(popm.mapped_value(TagType::RiffInfo).to_string()),
-- 
2.43.0


From 8b58d603dbd7603fea399bb798b4947aa1680c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 075/102] fix: open files for writing in
 TagType::remove_from_path()

---
 lofty/src/util/io.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index f15fbce..245da35 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -6,8 +6,8 @@ use crate::util::math::F80;
 use crate::file::FileType;
 use crate::probe::Probe;
 use std::collections::VecDeque;
-use std::fs::File;
-use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
+use std::fs::{File, OpenOptions};
+use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 use std::path::Path;
 
@@ -243,14 +243,14 @@ pub(crate) enum FileSource<'a, F> {
 	/// Sourced from an already open file handle
 	Ref(&'a mut F),
 	/// Sourced from a path
-	Path(BufReader<File>),
+	Path(File),
 }
 
 impl<F: FileLike> Length for FileSource<'_, F> {
 	fn len(&self) -> std::io::Result<u64> {
 		match self {
 			Self::Ref(file) => Length::len(file),
-			Self::Path(file) => Length::len(file.get_ref()),
+			Self::Path(file) => Length::len(file),
 		}
 	}
 }
@@ -259,7 +259,7 @@ impl<F: FileLike> Truncate for FileSource<'_, F> {
 	fn truncate(&mut self, size: u64) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Truncate::truncate(file, size),
-			Self::Path(file) => Truncate::truncate(file.get_mut(), size),
+			Self::Path(file) => Truncate::truncate(file, size),
 		}
 	}
 }
@@ -277,14 +277,14 @@ impl<F: FileLike> Write for FileSource<'_, F> {
 	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
 		match self {
 			Self::Ref(file) => Write::write(file, buf),
-			Self::Path(file) => Write::write(file.get_mut(), buf),
+			Self::Path(file) => Write::write(file, buf),
 		}
 	}
 
 	fn flush(&mut self) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Write::flush(file),
-			Self::Path(file) => Write::flush(file.get_mut()),
+			Self::Path(file) => Write::flush(file),
 		}
 	}
 }
@@ -329,7 +329,8 @@ impl<'a, F: FileLike> VerifiedFile<'a, F> {
 
 impl VerifiedFile<'_, File> {
 	pub(crate) fn new_from_path(path: &Path) -> Result<Self, FileParseError> {
-		let probe = Probe::open(path)?;
+		let file = OpenOptions::new().read(true).write(true).open(path)?;
+		let probe = Probe::new(file).guess_file_type()?;
 		match probe.file_type() {
 			Some(format) => Ok(Self {
 				format,
-- 
2.43.0


From 78ebc4f61aba63023b0c97873c0af42d02f5a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 076/102] fix: write the channels of RVA2 frames in a fixed
 order

---
 lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 46cba6d..0b8b232 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -239,7 +239,11 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			write_options.lossy_text_encoding,
 		)?);
 
-		for (channel_type, info) in &*self.channels {
+		// The output shouldn't depend on the order of the map
+		let mut channels = self.channels.iter().collect::<Vec<_>>();
+		channels.sort_unstable_by_key(|(channel_type, _)| **channel_type as u8);
+
+		for (channel_type, info) in channels {
 			let mut bits_representing_peak = info.bits_representing_peak;
 			let expected_peak_byte_length = (u16::from(bits_representing_peak) + 7) >> 3;
 
-- 
2.43.0


From 57e8724bdf7efd6c0a79a009455677a85532392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 077/102] fix: report the layout of the MPEG-4 channel
 configuration 4 with its rear center channel

---
 lofty/src/properties/channel_mask.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lofty/src/properties/channel_mask.rs b/lofty/src/properties/channel_mask.rs
index 89fa527..c913f03 100644
--- a/lofty/src/properties/channel_mask.rs
+++ b/lofty/src/properties/channel_mask.rs
@@ -146,10 +146,7 @@ impl ChannelMask {
 			2 => Some(Self::stereo()),
 			3 => Some(Self::linear_surround()),
 			4 => Some(Self(
-				Self::FRONT_LEFT.bits()
-					| Self::FRONT_RIGHT.bits()
-					| Self::BACK_LEFT.bits()
-					| Self::BACK_RIGHT.bits(),
+				Self::linear_surround().bits() | Self::BACK_CENTER.bits(),
 			)),
 			5 => Some(Self(
 				Self::linear_surround().bits() | Self::BACK_LEFT.bits() | Self::BACK_RIGHT.bits(),
-- 
2.43.0


From 37f5a1c9b0989846024cfe012272370d5082b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 078/102] fix: don't report a channel layout for Opus mapping
 families that define none

---
 lofty/src/ogg/opus/properties.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 3990e52..655faf7 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -122,7 +122,9 @@ where
 	}
 
 	// Only the mapping families 0 and 1 have defined channel layouts
-	if let Some(channel_mask) = ChannelMask::from_opus_channels(properties.channels) {
+	if channel_mapping_family <= 1
+		&& let Some(channel_mask) = ChannelMask::from_opus_channels(properties.channels)
+	{
 		properties.channel_mask = channel_mask;
 	}
 
-- 
2.43.0


From 15c574b09d32ee4d5bb663b9ed50d9b21ade7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 079/102] fix: count the whole file in the overall bitrate of
 untagged APE files

---
 lofty/src/ape/read.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 5117379..72b8b1c 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -145,15 +145,19 @@ where
 	// Strongly recommended to be at the end of the file
 	data.seek(SeekFrom::Current(-32))?;
 
-	if let (tag, Some(header)) =
-		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
-	{
-		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
-			return Err(SizeMismatchError.into());
-		};
-
-		stream_len = new_stream_length;
-		ape_tag = tag;
+	match read_ape_tag(data, true, parse_options).map_err(TagParseError::from)? {
+		(tag, Some(header)) => {
+			let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+				return Err(SizeMismatchError.into());
+			};
+
+			stream_len = new_stream_length;
+			ape_tag = tag;
+		},
+		_ => {
+			// Correct the position (APE header - Preamble)
+			data.seek(SeekFrom::Current(24))?;
+		},
 	}
 
 	let file_length = data.stream_position()?;
-- 
2.43.0


From 1c128b4108df8d0194e3d8d189d7251f1be118e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 080/102] fix: find the VBRI header of MPEG files regardless of
 their channels and version

---
 lofty/src/mpeg/read.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 52c5a08..ccdf52a 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -196,7 +196,21 @@ where
 		let mut xing_reader = [0; 32];
 		reader.read_exact(&mut xing_reader)?;
 
-		let xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+		let mut xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+
+		// Unlike the Xing header, the VBRI header isn't affected by the size of the side information.
+		// It always starts 32 bytes past the header of the frame.
+		if xing_header.is_none() {
+			reader.seek(SeekFrom::Start(first_frame_offset + 4 + 32))?;
+
+			match reader.read_exact(&mut xing_reader) {
+				Ok(()) if xing_reader.starts_with(b"VBRI") => {
+					xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+				},
+				Err(e) if e.kind() != std::io::ErrorKind::UnexpectedEof => return Err(e.into()),
+				_ => {},
+			}
+		}
 
 		let file_length = reader.stream_len_hack()?;
 
-- 
2.43.0


From dcbda89da6a59a34ce369ac77c4aee75a69acb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 081/102] fix: read the channel information of multichannel
 WavPack files

---
 lofty/src/wavpack/properties.rs | 130 +++++++++++++-------------------
 1 file changed, 54 insertions(+), 76 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index e8f4995..1ab604a 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -145,32 +145,6 @@ where
 		let sample_rate_idx = ((flags >> 23) & 0xF) as usize;
 		properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
 
-		// In the case of non-standard sample rates and DSD audio, we need to actually read the
-		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
-			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
-			reader.read_exact(&mut block_contents)?;
-
-			if let Err(e) = get_extended_meta_info(parse_mode, &block_contents, &mut properties)
-			{
-				if parse_mode == ParsingMode::Strict {
-					return Err(e);
-				}
-
-				break
-			}
-
-			// A sample rate index of 15 indicates a custom sample rate, which should have been found
-			// when we just parsed the metadata blocks
-			if sample_rate_idx == 15 && properties.sample_rate == 0 {
-				if parse_mode == ParsingMode::Strict {
-					return Err(WavPackParseError::message("expected custom sample rate"));
-				}
-
-				break
-			}
-		}
-
 		if flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK {
 			if block_header.version < MIN_STREAM_VERSION
 				|| block_header.version > MAX_STREAM_VERSION
@@ -202,6 +176,39 @@ where
 			}
 		}
 
+		// In the case of non-standard sample rates and DSD audio, we need to actually read the
+		// block to get the sample rate. The first block of a sequence also has the channel information,
+		// unless the file is plain mono or stereo.
+		if sample_rate_idx == 15
+			|| flags & FLAG_DSD == FLAG_DSD
+			|| flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK
+		{
+			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
+			match reader.read_exact(&mut block_contents) {
+				Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof && parse_mode != ParsingMode::Strict => break,
+				res => res?,
+			}
+
+			if let Err(e) = get_extended_meta_info(parse_mode, &block_contents, &mut properties)
+			{
+				if parse_mode == ParsingMode::Strict {
+					return Err(e);
+				}
+
+				break
+			}
+
+			// A sample rate index of 15 indicates a custom sample rate, which should have been found
+			// when we just parsed the metadata blocks
+			if sample_rate_idx == 15 && properties.sample_rate == 0 {
+				if parse_mode == ParsingMode::Strict {
+					return Err(WavPackParseError::message("expected custom sample rate"));
+				}
+
+				break
+			}
+		}
+
 		// Just skip any block with no samples
 		if block_header.samples == 0 {
 			offset += u64::from(block_header.block_size + 8);
@@ -365,61 +372,32 @@ fn get_extended_meta_info(
 				properties.sample_rate = properties.sample_rate.wrapping_mul(rate_multiplier);
 			},
 			ID_MULTICHANNEL => {
-				if size <= 1 {
+				let info_size = size;
+
+				properties.channels = u16::from(reader.read_u8()?);
+				size -= 1;
+
+				// More than 255 channels or streams
+				if info_size == 6 || info_size == 7 {
+					let _streams = reader.read_u8()?;
+					properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
+					properties.channels += 1;
+					size -= 2;
+				}
+
+				if size > 4 {
 					return Err(WavPackParseError::message(
-						"unable to extract channel information",
+						"encountered invalid channel info size",
 					));
 				}
 
-				properties.channels = u16::from(reader.read_u8()?);
+				let channel_mask = match size {
+					0 => 0,
+					_ => reader.read_uint::<LittleEndian>(size as usize)? as u32,
+				};
+				size = 0;
 
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
-					0 => {
-						let channel_mask = reader.read_u8()?;
-						size -= 1;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					1 => {
-						let channel_mask = reader.read_u16::<LittleEndian>()?;
-						size -= 2;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					2 => {
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 3;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					3 => {
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 4;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					4 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
-
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					5 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
-
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					_ => {
-						return Err(WavPackParseError::message(
-							"encountered invalid channel info size",
-						));
-					},
-				}
+				properties.channel_mask = ChannelMask(channel_mask);
 			},
 			_ => {},
 		}
-- 
2.43.0


From f68b91a67f8dc951d266a66adc32c7c3ef5d2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 082/102] fix: split APE items of several locators in
 conversions

---
 lofty/src/ape/tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 38f380d..bd0482e 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -565,7 +565,7 @@ impl SplitTag for ApeTag {
 					let item = std::mem::replace(item, ApeItem::EMPTY);
 
 					// Multi-value string
-					if let Some(text) = item.value.text()
+					if let Some(text) = item.value.text().or_else(|| item.value.locator())
 						&& text.contains('\0')
 					{
 						for value in text.split('\0') {
-- 
2.43.0


From e0a2dfb4f3b4a39bf33ae541fb79067556cf1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 083/102] fix: keep TXXX frames described by a frame ID apart
 from that frame in conversions

---
 lofty/src/id3/v2/tag.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 2dac595..48551d9 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -740,6 +740,11 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			ref content,
 			..
 		}) if !description.is_empty() => {
+			// A description that happens to be a frame ID (e.g. "TIT2") doesn't make it that frame
+			if description.len() == 4 && description != "WORK" {
+				return FRAME_RETAINED;
+			}
+
 			let Some(item_key) = ItemKey::from_key(TagType::Id3v2, description) else {
 				return FRAME_RETAINED;
 			};
-- 
2.43.0


From e925b01a8dc784d55dbd3ae95b5e4008646eaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 084/102] fix: state the encoding that was used in SYLT frames
 written as ID3v2.3

---
 lofty/src/id3/v2/items/sync_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/sync_text.rs b/lofty/src/id3/v2/items/sync_text.rs
index 301ee7f..2e04034 100644
--- a/lofty/src/id3/v2/items/sync_text.rs
+++ b/lofty/src/id3/v2/items/sync_text.rs
@@ -300,7 +300,7 @@ impl SynchronizedTextFrame<'_> {
 			encoding = encoding.to_id3v23();
 		}
 
-		let mut data = vec![self.encoding as u8];
+		let mut data = vec![encoding as u8];
 
 		data.write_all(&self.language)?;
 		data.write_u8(self.timestamp_format as u8)?;
-- 
2.43.0


From aebaf7cd3e714b16c141606f1b70039e599319f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:47 +0000
Subject: [PATCH 085/102] fix: write the MIME type of GEOB frames as Latin-1

---
 lofty/src/id3/v2/items/encapsulated_object.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/items/encapsulated_object.rs b/lofty/src/id3/v2/items/encapsulated_object.rs
index 8e21167..69062b0 100644
--- a/lofty/src/id3/v2/items/encapsulated_object.rs
+++ b/lofty/src/id3/v2/items/encapsulated_object.rs
@@ -116,11 +116,11 @@ impl GeneralEncapsulatedObject<'_> {
 
 		let mut bytes = vec![encoding as u8];
 
-		if let Some(ref mime_type) = self.mime_type {
-			bytes.extend(mime_type.as_bytes())
-		}
-
-		bytes.push(0);
+		bytes.extend(TextEncoding::Latin1.encode(
+			self.mime_type.as_deref().unwrap_or(""),
+			true,
+			write_options.lossy_text_encoding,
+		)?);
 
 		let file_name = self.file_name.as_deref();
 		bytes.extend(&*encoding.encode(
-- 
2.43.0


From 90215f5afea726e8a9959876232daad4c992cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 086/102] fix: expose the pictures of APE tags in generic tags

---
 lofty/src/ape/tag/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index bd0482e..c8237af 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -4,11 +4,13 @@ pub(crate) mod item;
 pub(crate) mod read;
 mod write;
 
+use crate::ape::APE_PICTURE_TYPES;
 use crate::ape::tag::error::ApeTagEncodingError;
 use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair};
+use crate::picture::Picture;
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -526,9 +528,26 @@ impl SplitTag for ApeTag {
 			Some(())
 		}
 
+		fn split_picture(item: &ApeItem) -> Option<Picture> {
+			if !APE_PICTURE_TYPES.contains(&item.key()) {
+				return None;
+			}
+
+			let bytes = item.value().binary()?;
+			let picture = Picture::from_ape_bytes(item.key(), bytes).ok()?;
+
+			// Anything that wouldn't be written back as it is now is left to the `ApeTag`
+			(picture.as_ape_bytes() == bytes).then_some(picture)
+		}
+
 		let mut tag = Tag::new(TagType::Ape);
 
 		self.items.retain_mut(|item| {
+			if let Some(picture) = split_picture(item) {
+				tag.pictures.push(picture);
+				return false; // Item consumed
+			}
+
 			let Some(item_key) = ItemKey::from_key(TagType::Ape, item.key()) else {
 				return true;
 			};
-- 
2.43.0


From 5b2d6eda8f27e3d6c46ff546bf9eb854202de82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 087/102] fix: read the properties of ALAC tracks with further
 atoms in their sample description

---
 lofty/src/mp4/properties.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f9b78dd..6c280f5 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -913,11 +913,6 @@ fn alac_properties<R>(
 where
 	R: Read + Seek,
 {
-	// With ALAC, we can expect the length to be exactly 88 (80 here since we removed the size and identifier)
-	if stsd.len() != 80 {
-		return Ok(());
-	}
-
 	// Unlike the "mp4a" atom, we cannot read the data that immediately follows it
 	// For ALAC, we have to skip the first "alac" atom entirely, and read the one that
 	// immediately follows it.
@@ -925,7 +920,9 @@ where
 		return Ok(());
 	};
 
-	if alac.ident != AtomIdent::Fourcc(*b"alac") {
+	// The configuration is 28 bytes long (36 with the size and identifier), it can be followed by
+	// a channel layout, and the sample description can contain further atoms and entries.
+	if alac.ident != AtomIdent::Fourcc(*b"alac") || alac.len < 36 {
 		return Ok(());
 	}
 
-- 
2.43.0


From 49a6c7c6314339465dd780ae823315f0ee812c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 088/102] fix: don't overflow on the channel count of MPEG-4
 ALS streams

---
 lofty/src/mp4/properties.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 6c280f5..df7980d 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -892,7 +892,9 @@ where
 
 						// Sample count
 						stsd.seek(SeekFrom::Current(4))?;
-						properties.channels = Some(stsd.read_u16()? as u8 + 1);
+						// Stored as the channel count minus one
+						let channels = u32::from(stsd.read_u16()?) + 1;
+						properties.channels = Some(u8::try_from(channels).unwrap_or(u8::MAX));
 					}
 				}
 			}
-- 
2.43.0


From 07853f9525e62c19b12e28d6d6b0e138c1cabae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 089/102] fix: refuse to save MP4 tags that would move media
 offsets out of range

---
 lofty/src/mp4/ilst/write.rs | 41 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 3ace293..5e669b9 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -13,6 +13,7 @@ use crate::mp4::ilst::r#ref::AtomRef;
 use crate::mp4::read::{AtomReader, atom_tree, find_child_atom, meta_is_full, verify_mp4};
 use crate::mp4::write::{AtomWriter, AtomWriterCompanion, ContextualAtom};
 use crate::picture::{MimeType, Picture};
+use crate::tag::TagType;
 use crate::util::alloc::VecFallibleCapacity;
 use crate::util::io::FileLike;
 
@@ -472,13 +473,14 @@ fn update_offsets(
 			if u64::from(read_offset) < ilst_offset {
 				continue;
 			}
+
+			let new_offset = shift_offset(u64::from(read_offset), difference)?;
+			let new_offset = u32::try_from(new_offset).map_err(|_| offset_overflow())?;
+
 			write_handle.seek(SeekFrom::Current(-4))?;
-			write_handle.write_u32::<BigEndian>((i64::from(read_offset) + difference) as u32)?;
+			write_handle.write_u32::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				(i64::from(read_offset) + difference) as u32
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -496,13 +498,12 @@ fn update_offsets(
 				continue;
 			}
 
+			let new_offset = shift_offset(read_offset, difference)?;
+
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			write_handle.write_u64::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -527,13 +528,12 @@ fn update_offsets(
 					continue;
 				}
 
+				let new_offset = shift_offset(read_offset, difference)?;
+
 				write_handle.seek(SeekFrom::Current(-8))?;
-				write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+				write_handle.write_u64::<BigEndian>(new_offset)?;
 
-				log::trace!(
-					"Updated offset from {read_offset} to {}",
-					((read_offset as i64) + difference) as u64
-				);
+				log::trace!("Updated offset from {read_offset} to {new_offset}");
 			}
 		}
 	}
@@ -543,6 +543,17 @@ fn update_offsets(
 	Ok(())
 }
 
+/// Moves a media offset, refusing to wrap it around
+fn shift_offset(offset: u64, difference: i64) -> Result<u64, FileEncodingError> {
+	offset
+		.checked_add_signed(difference)
+		.ok_or_else(offset_overflow)
+}
+
+fn offset_overflow() -> FileEncodingError {
+	TagEncodingError::new(TagType::Mp4Ilst, TooMuchDataError.into()).into()
+}
+
 fn create_udta(ilst: &[u8], write_options: WriteOptions) -> Result<Vec<u8>, FileEncodingError> {
 	const UDTA_HEADER: [u8; 8] = [0, 0, 0, 0, b'u', b'd', b't', b'a'];
 
-- 
2.43.0


From 49a653b77f0f24a635d1a09a82e66c63238f6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:11 +0000
Subject: [PATCH 090/102] fix: refuse ID3v2 padding that overflows the tag size

---
 lofty/src/id3/v2/write/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 99f2dcf..7c28a2f 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -7,7 +7,7 @@ use crate::error::{FileEncodingError, TagEncodingError, TagParseError};
 use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
-use crate::id3::v2::util::synchsafe::SynchsafeInteger;
+use crate::id3::v2::util::synchsafe::{SynchOverflowError, SynchsafeInteger};
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
@@ -171,9 +171,14 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		len += preferred_padding.get() as usize;
 	}
 
+	let tag_size = u32::try_from(len)
+		.ok()
+		.and_then(|len| len.checked_add(extended_header_len))
+		.ok_or(SynchOverflowError)?;
+
 	// Go back to the start and write the final size
 	id3v2.seek(SeekFrom::Start(6))?;
-	id3v2.write_u32::<BigEndian>((extended_header_len + len as u32).synch()?)?;
+	id3v2.write_u32::<BigEndian>(tag_size.synch()?)?;
 
 	if needs_crc {
 		// The CRC is calculated on all the data between the header and footer
-- 
2.43.0


From 86d224952b16865caddb8fa7f0b8c340feb26497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 091/102] fix: drop AtomReader::len, which nothing uses since
 QuickTime version 2 entries are read

---
 lofty/src/mp4/read/atom_reader.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 18bc268..58dc51c 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -42,11 +42,6 @@ where
 		})
 	}
 
-	/// Get the total length of the reader, including bytes already read
-	pub(crate) fn len(&self) -> u64 {
-		self.len
-	}
-
 	/// Set new bounds for the reader
 	///
 	/// This is useful when reading an atom such as `moov`, where we only want to read it and its
-- 
2.43.0


From ad8ec9a13bd7db264d38f6c74a6ce8a833c36d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 092/102] fix: find borrowed pictures when removing or
 replacing ID3v2 pictures

---
 lofty/src/id3/v2/frame/list.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index af95e63..819b070 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -347,12 +347,8 @@ impl<'a> FrameList<'a> {
 	/// Removes a certain [`PictureType`]
 	pub fn remove_picture_type(&mut self, picture_type: PictureType) {
 		self.0.to_mut().retain(|f| {
-			!matches!(f, Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture {
-							pic_type: p_ty,
-							..
-						}), ..
-					}) if p_ty == &picture_type)
+			!matches!(f, Frame::Picture(AttachedPictureFrame { picture, .. })
+				if picture.pic_type == picture_type)
 		})
 	}
 
@@ -469,10 +465,7 @@ impl FrameList<'static> {
 
 			for (i, frame) in self.0.iter().enumerate() {
 				match frame {
-					Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture { pic_type, .. }),
-						..
-					}) if pic_type == &picture.pic_type => {
+					Frame::Picture(existing) if existing.picture.pic_type == picture.pic_type => {
 						pos = Some(i);
 						break;
 					},
-- 
2.43.0


From 23d6335e1113ccef1d99d024f6c05661d3dd4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 093/102] fix: don't hold the resolver registry's lock while
 resolvers run

---
 lofty/src/file/file_type.rs |  6 ++----
 lofty/src/probe.rs          |  9 +++------
 lofty/src/resolve.rs        | 25 +++++++++++++++++--------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 939e2b5..11be94d 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -1,5 +1,5 @@
 use crate::config::global_options;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::custom_resolvers;
 use crate::tag::{TagSupport, TagType};
 
 use std::ffi::OsStr;
@@ -189,9 +189,7 @@ impl FileType {
 
 		// Give custom resolvers priority
 		if unsafe { global_options().use_custom_resolvers }
-			&& let Some((ty, _)) = CUSTOM_RESOLVERS
-				.lock()
-				.ok()?
+			&& let Some((ty, _)) = custom_resolvers()
 				.iter()
 				.find(|(_, f)| f.extension() == Some(ext.as_str()))
 		{
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 872fbe3..1e03675 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -16,7 +16,7 @@ use crate::musepack::MpcFile;
 use crate::ogg::opus::OpusFile;
 use crate::ogg::speex::SpeexFile;
 use crate::ogg::vorbis::VorbisFile;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::custom_resolvers;
 use crate::wavpack::WavPackFile;
 
 use std::fs::File;
@@ -334,11 +334,8 @@ impl<R: Read + Seek> Probe<R> {
 		self.inner.seek(SeekFrom::Start(starting_position))?;
 
 		// Give custom resolvers priority
-		if unsafe { global_options().use_custom_resolvers }
-			&& let Ok(lock) = CUSTOM_RESOLVERS.lock()
-		{
-			#[allow(clippy::significant_drop_in_scrutinee)]
-			for resolve in lock.values() {
+		if unsafe { global_options().use_custom_resolvers } {
+			for resolve in custom_resolvers().values() {
 				if let ret @ Some(_) = resolve.guess(&buf[..buf_len]) {
 					return Ok(ret);
 				}
diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 9fd9981..908c2ad 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -9,7 +9,7 @@ use crate::tag::{TagSupport, TagType};
 use std::collections::HashMap;
 use std::io::{Read, Seek};
 use std::marker::PhantomData;
-use std::sync::{Arc, LazyLock, Mutex};
+use std::sync::{Arc, LazyLock, Mutex, PoisonError};
 
 /// A custom file resolver
 ///
@@ -35,13 +35,20 @@ pub trait FileResolver: Send + Sync + AudioFile {
 // Just broken out to its own type to make `CUSTOM_RESOLVER`'s type shorter :)
 type ResolverMap = HashMap<&'static str, &'static dyn ObjectSafeFileResolver>;
 
-pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
-	LazyLock::new(Default::default);
+static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> = LazyLock::new(Default::default);
 
-pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
-	let res = CUSTOM_RESOLVERS.lock().unwrap();
+/// Get a copy of the resolver collection
+///
+/// The lock is never held while a resolver is called, since it may panic, or use the library itself.
+pub(crate) fn custom_resolvers() -> ResolverMap {
+	CUSTOM_RESOLVERS
+		.lock()
+		.unwrap_or_else(PoisonError::into_inner)
+		.clone()
+}
 
-	if let Some(resolver) = res.get(name).copied() {
+pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
+	if let Some(resolver) = custom_resolvers().get(name).copied() {
 		return resolver;
 	}
 
@@ -110,9 +117,11 @@ impl<T: FileResolver> ObjectSafeFileResolver for GhostlyResolver<T> {
 /// # Panics
 ///
 /// * Attempting to register an existing name or type
-/// * See [`Mutex::lock`]
 pub fn register_custom_resolver<T: FileResolver + 'static>(name: &'static str) {
-	let mut res = CUSTOM_RESOLVERS.lock().unwrap();
+	// A panic below leaves the collection as it is, so there's no harm in a poisoned lock
+	let mut res = CUSTOM_RESOLVERS
+		.lock()
+		.unwrap_or_else(PoisonError::into_inner);
 	assert!(
 		res.iter().all(|(n, _)| *n != name),
 		"Resolver `{}` already exists!",
-- 
2.43.0


From 47213dc1123e9d91694b0edba028f87d1b827d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 094/102] fix: compare APE picture keys without regard to case

---
 lofty/src/ape/tag/mod.rs  | 6 +++++-
 lofty/src/ape/tag/read.rs | 5 ++++-
 lofty/src/picture/mod.rs  | 6 ++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index c8237af..66f0ce8 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -529,7 +529,11 @@ impl SplitTag for ApeTag {
 		}
 
 		fn split_picture(item: &ApeItem) -> Option<Picture> {
-			if !APE_PICTURE_TYPES.contains(&item.key()) {
+			let key = item.key();
+			if !APE_PICTURE_TYPES
+				.iter()
+				.any(|k| k.eq_ignore_ascii_case(key))
+			{
 				return None;
 			}
 
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 840251f..fed464f 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -94,7 +94,10 @@ where
 
 		let key = utf8_decode(key).map_err(ApeTagItemParseError::from)?;
 
-		if APE_PICTURE_TYPES.contains(&&*key) && !parse_options.read_cover_art {
+		let is_picture = APE_PICTURE_TYPES
+			.iter()
+			.any(|k| k.eq_ignore_ascii_case(&key));
+		if is_picture && !parse_options.read_cover_art {
 			reader.seek(SeekFrom::Current(i64::from(value_size)))?;
 			continue;
 		}
diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 606438f..f56e9eb 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -273,6 +273,12 @@ impl PictureType {
 
 	/// Get a `PictureType` from an APE item key
 	pub fn from_ape_key(key: &str) -> Self {
+		// Item keys are case insensitive
+		let key = APE_PICTURE_TYPES
+			.into_iter()
+			.find(|k| k.eq_ignore_ascii_case(key))
+			.unwrap_or(key);
+
 		match key {
 			"Cover Art (Other)" => Self::Other,
 			"Cover Art (Png Icon)" => Self::Icon,
-- 
2.43.0


From 16b26b41173fa3c25851f3f649d8f554d5b680eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 095/102] fix: keep the people listed in TIPL when mapping a
 tag to ID3v2

---
 lofty/src/tag/item.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 11c26ca..73fe0ed 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1154,12 +1154,20 @@ impl TagItem {
 	}
 
 	pub(crate) fn re_map(&self, tag_type: TagType) -> bool {
+		use crate::id3::v2::util::mappings::TIPL_MAPPINGS;
+
 		if tag_type == TagType::Id3v1 {
 			use crate::id3::v1::constants::VALID_ITEMKEYS;
 
 			return VALID_ITEMKEYS.contains(&self.item_key);
 		}
 
+		// People that are listed in `TIPL` have no key of their own
+		if tag_type == TagType::Id3v2 && TIPL_MAPPINGS.iter().any(|(key, _)| *key == self.item_key)
+		{
+			return true;
+		}
+
 		self.item_key.map_key(tag_type).is_some()
 	}
 }
-- 
2.43.0


From bdcd65e3f803a3bbc62092c45e34313657287432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 096/102] fix: have TagItem::new_checked accept what
 Tag::insert does

---
 lofty/src/tag/item.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 73fe0ed..8b37451 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1072,10 +1072,8 @@ impl TagItem {
 		item_key: ItemKey,
 		item_value: ItemValue,
 	) -> Option<Self> {
-		item_key
-			.map_key(tag_type)
-			.is_some()
-			.then_some(Self::new(item_key, item_value))
+		let item = Self::new(item_key, item_value);
+		item.re_map(tag_type).then_some(item)
 	}
 
 	/// Create a new [`TagItem`]
-- 
2.43.0


From 7407a08a815e2bb381543c504778d98d91692fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:19 +0000
Subject: [PATCH 097/102] fix: a generic ID3v2 tag must not be written to
 Musepack files, where it is read-only

---
 lofty_attr/src/internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index ed51188..3ccebfb 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -14,7 +14,7 @@ pub(crate) fn opt_internal_file_type(
 		"WavPack",
 	];
 
-	const ID3V2_STRIPPABLE: [&str; 2] = ["Flac", "Ape"];
+	const ID3V2_STRIPPABLE: [&str; 3] = ["Flac", "Ape", "Mpc"];
 
 	let stripped = struct_name.strip_suffix("File");
 	if let Some(prefix) = stripped
-- 
2.43.0


From 133e68e8043e94a03595dd2c1fcf6f416a1069e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:09 +0000
Subject: [PATCH 098/102] fix: write the MIME type of an APIC frame in Latin-1,
 the way it is read

---
 lofty/src/id3/v2/items/attached_picture_frame.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/attached_picture_frame.rs b/lofty/src/id3/v2/items/attached_picture_frame.rs
index 0f9ee88..a8dd360 100644
--- a/lofty/src/id3/v2/items/attached_picture_frame.rs
+++ b/lofty/src/id3/v2/items/attached_picture_frame.rs
@@ -158,7 +158,11 @@ impl<'a> AttachedPictureFrame<'a> {
 		let mut data = vec![encoding as u8];
 
 		if let Some(mime_type) = &self.picture.mime_type {
-			data.write_all(mime_type.as_str().as_bytes())?;
+			data.write_all(&TextEncoding::Latin1.encode(
+				mime_type.as_str(),
+				false,
+				write_options.lossy_text_encoding,
+			)?)?;
 		}
 		data.write_u8(0)?;
 
-- 
2.43.0


From 2552848199e6a58037c917f725b4764ef85b8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:40 +0000
Subject: [PATCH 099/102] fix: do not lose number pairs, flags, ratings and
 recording ids that a generic tag has no value for

---
 lofty/src/id3/v2/tag.rs   | 26 ++++++++++++++++++++++++++
 lofty/src/mp4/ilst/mod.rs | 19 +++++++++++++------
 lofty/src/util/mod.rs     | 14 ++++++++++++++
 3 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 48551d9..052c874 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -25,6 +25,7 @@ use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
 };
 use crate::util::io::FileLike;
+use crate::util::is_convertible;
 use crate::util::text::{TextDecodeOptions, TextEncoding, decode_text};
 use conversion::Id3v2TagRef;
 
@@ -749,6 +750,13 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				return FRAME_RETAINED;
 			};
 
+			if !content
+				.split(V4_MULTI_VALUE_SEPARATOR)
+				.all(|c| is_convertible(item_key, c))
+			{
+				return FRAME_RETAINED;
+			}
+
 			for c in content.split(V4_MULTI_VALUE_SEPARATOR) {
 				tag.items.push(TagItem::new(
 					item_key,
@@ -794,6 +802,12 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			) else {
 				return FRAME_RETAINED;
 			};
+
+			// It wouldn't be converted back
+			if !recording_id.content.is_ascii() {
+				return FRAME_RETAINED;
+			}
+
 			tag.items.push(TagItem::new(
 				ItemKey::MusicBrainzRecordingId,
 				ItemValue::Text(recording_id.content),
@@ -877,6 +891,18 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				return FRAME_RETAINED;
 			};
 
+			// These could not be split, and wouldn't be converted back
+			if matches!(id.as_str(), "TRCK" | "TPOS" | "MVIN") {
+				return FRAME_RETAINED;
+			}
+
+			if !content
+				.split(V4_MULTI_VALUE_SEPARATOR)
+				.all(|c| is_convertible(item_key, c))
+			{
+				return FRAME_RETAINED;
+			}
+
 			for c in content.split(V4_MULTI_VALUE_SEPARATOR) {
 				tag.items.push(TagItem::new(
 					item_key,
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index 885f72f..324dc23 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -22,8 +22,8 @@ use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
 	try_parse_timestamp,
 };
-use crate::util::flag_item;
 use crate::util::io::FileLike;
+use crate::util::{flag_item, is_convertible};
 use advisory_rating::AdvisoryRating;
 use atom::{Atom, AtomData};
 use data_type::DataType;
@@ -713,6 +713,13 @@ impl SplitTag for Ilst {
 			let atom_retained = data.retain_mut(|val| {
 				match (&key, val) {
 					(ItemKeyMapping::Mapped(key), AtomData::UTF8(text) | AtomData::UTF16(text)) => {
+						// These wouldn't be converted back
+						let is_pair = *ident == TRACK_NUMBER || *ident == DISC_NUMBER;
+						if (is_pair && text.parse::<u16>().is_err()) || !is_convertible(*key, text)
+						{
+							return true; // Data retained
+						}
+
 						tag.items
 							.push(TagItem::new(*key, ItemValue::Text(std::mem::take(text))));
 					},
@@ -785,7 +792,7 @@ impl MergeTag for SplitTagRemainder {
 					let current = pair.0.unwrap_or(0).to_be_bytes();
 					let total = pair.1.unwrap_or(0).to_be_bytes();
 
-					tag.atoms.push(Atom {
+					tag.replace_atom(Atom {
 						ident: AtomIdent::Fourcc(ident),
 						data: AtomDataStorage::Single(AtomData::Unknown {
 							code: DataType::Reserved,
@@ -820,8 +827,8 @@ impl MergeTag for SplitTagRemainder {
 							continue;
 						};
 
-						merged.atoms.push(Atom {
-							ident: ident.into_owned(),
+						merged.replace_atom(Atom {
+							ident,
 							data: AtomDataStorage::Single(AtomData::Bool(data)),
 						})
 					},
@@ -841,8 +848,8 @@ impl MergeTag for SplitTagRemainder {
 							continue;
 						};
 
-						merged.atoms.push(Atom {
-							ident: ident.into_owned(),
+						merged.replace_atom(Atom {
+							ident,
 							data: AtomDataStorage::Single(AtomData::SignedInteger(i32::from(
 								parsed_rating.as_u8(),
 							))),
diff --git a/lofty/src/util/mod.rs b/lofty/src/util/mod.rs
index 99aeb90..c856637 100644
--- a/lofty/src/util/mod.rs
+++ b/lofty/src/util/mod.rs
@@ -3,6 +3,9 @@ pub mod io;
 pub(crate) mod math;
 pub(crate) mod text;
 
+use crate::mp4::AdvisoryRating;
+use crate::tag::ItemKey;
+
 pub(crate) fn flag_item(item: &str) -> Option<bool> {
 	match item {
 		"1" | "true" => Some(true),
@@ -10,3 +13,14 @@ pub(crate) fn flag_item(item: &str) -> Option<bool> {
 		_ => None,
 	}
 }
+
+/// Whether a text read for `key` will be taken when the generic item is converted back
+pub(crate) fn is_convertible(key: ItemKey, text: &str) -> bool {
+	match key {
+		ItemKey::FlagCompilation | ItemKey::FlagPodcast => flag_item(text).is_some(),
+		ItemKey::ParentalAdvisory => text
+			.parse::<u8>()
+			.is_ok_and(|rating| AdvisoryRating::try_from(rating).is_ok()),
+		_ => true,
+	}
+}
-- 
2.43.0


From 5c3916a36361468e5c19b40474e3bd7def2639e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:12 +0000
Subject: [PATCH 100/102] fix: do not write ID3v2 frames without content, or
 extended headers without frames, which cannot be read back

---
 lofty/src/id3/v2/write/frame.rs | 6 ++++++
 lofty/src/id3/v2/write/mod.rs   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index cfc498b..c057886 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -310,6 +310,12 @@ fn write_frame<W>(
 where
 	W: Write,
 {
+	// "A frame must be at least 1 byte big, excluding the header", and will not be read otherwise
+	if value.is_empty() {
+		log::warn!("Discarding frame: {name}, it has no content");
+		return Ok(());
+	}
+
 	// Unsynchronized data is never written
 	let mut flags = FrameFlags {
 		unsynchronisation: false,
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 7c28a2f..950218c 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -161,6 +161,11 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 
 	let mut len = id3v2.get_ref().len() - header_len;
 
+	// None of the frames could be written, and an extended header can't be all there is to a tag
+	if len == 0 && extended_header_len > 0 {
+		return Ok(Vec::new());
+	}
+
 	// https://mutagen-specs.readthedocs.io/en/latest/id3/id3v2.4.0-structure.html#padding:
 	//
 	// "[A tag] MUST NOT have any padding when a tag footer is added to the tag"
-- 
2.43.0


From 36017213d9353500222f8a6cd04b5912fc2d2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:00 +0000
Subject: [PATCH 101/102] fix: Don't mistake the contents of an APE or
 Lyrics3v2 tag for an ID3v1 tag

---
 lofty/src/id3/mod.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 4c735cc..805e6eb 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -105,6 +105,32 @@ where
 	Ok(ID3FindResults(header, size))
 }
 
+// Whether the file ends with another tag, which takes up the space an ID3v1 tag would
+fn ends_with_other_tag<R>(data: &mut R) -> std::io::Result<bool>
+where
+	R: Read + Seek,
+{
+	const APE_FOOTER_SIZE: u32 = 32;
+
+	data.seek(SeekFrom::End(-i64::from(APE_FOOTER_SIZE)))?;
+
+	let mut footer = [0; APE_FOOTER_SIZE as usize];
+	data.read_exact(&mut footer)?;
+
+	// Lyrics3v2 tags are only followed by an ID3v1 tag: [size (6 bytes), L, Y, R, I, C, S, 2, 0, 0]
+	if footer.ends_with(b"LYRICS200") && footer[17..23].iter().all(u8::is_ascii_digit) {
+		return Ok(true);
+	}
+
+	// [A, P, E, T, A, G, E, X, version (4 bytes), size (4 bytes), count (4 bytes), flags (4 bytes), reserved (8 bytes)]
+	if !footer.starts_with(b"APETAGEX") || footer[24..] != [0; 8] {
+		return Ok(false);
+	}
+
+	let size = u32::from_le_bytes([footer[12], footer[13], footer[14], footer[15]]);
+	Ok(size >= 128)
+}
+
 #[allow(unused_variables)]
 pub(crate) fn find_id3v1<R>(
 	data: &mut R,
@@ -149,6 +175,12 @@ where
 			return Ok(ID3FindResults(header, id3v1));
 		}
 	}
+
+	// ...or be within the contents of a tag that ends the file
+	if ends_with_other_tag(data)? {
+		data.seek(SeekFrom::End(0))?;
+		return Ok(ID3FindResults(header, id3v1));
+	}
 	data.seek(SeekFrom::End(-128))?;
 
 	log::debug!("Found an ID3v1 tag, parsing");
-- 
2.43.0


From cdf08fbc8db30629e2783f578d8dbff863ac83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:27 +0000
Subject: [PATCH 102/102] fix: Don't get stuck on ADTS frames shorter than
 their header

---
 lofty/src/aac/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index ca11720..9b60934 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -187,6 +187,12 @@ where
 		if let Some(first_header) = ADTSHeader::read(reader, parsing_mode)? {
 			let header_len = if first_header.has_crc { 9 } else { 7 };
 
+			// A frame can't be shorter than its own header, this would never move past it
+			if u32::from(first_header.len) < header_len {
+				pos = reader.stream_position()?;
+				continue;
+			}
+
 			match cmp_header(
 				reader,
 				header_len,
-- 
2.43.0

