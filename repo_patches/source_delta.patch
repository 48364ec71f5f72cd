From 05df8ddebb00431d1ee7f9909e9e33868b522113 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 01/53] Add verification hooks behind the lofty_verif cfg

---
 lofty/src/aac/mod.rs            |   3 +
 lofty/src/aac/verif.rs          |  49 +++++++++++++++
 lofty/src/ape/mod.rs            |   3 +
 lofty/src/ape/verif.rs          |  50 +++++++++++++++
 lofty/src/flac/mod.rs           |   3 +
 lofty/src/flac/verif.rs         |  62 +++++++++++++++++++
 lofty/src/flac/write.rs         |  15 +++++
 lofty/src/id3/v1/mod.rs         |   3 +
 lofty/src/id3/v1/verif.rs       |  17 ++++++
 lofty/src/id3/v2/frame/mod.rs   |   3 +
 lofty/src/id3/v2/frame/verif.rs |  22 +++++++
 lofty/src/id3/v2/mod.rs         |   3 +
 lofty/src/id3/v2/verif.rs       |  85 ++++++++++++++++++++++++++
 lofty/src/iff/aiff/mod.rs       |   3 +
 lofty/src/iff/aiff/verif.rs     |  26 ++++++++
 lofty/src/iff/mod.rs            |   3 +
 lofty/src/iff/verif.rs          |  82 +++++++++++++++++++++++++
 lofty/src/iff/wav/mod.rs        |   3 +
 lofty/src/iff/wav/verif.rs      |  20 ++++++
 lofty/src/lib.rs                |   7 +++
 lofty/src/mp4/mod.rs            |   3 +
 lofty/src/mp4/verif.rs          |  86 ++++++++++++++++++++++++++
 lofty/src/mpeg/mod.rs           |   3 +
 lofty/src/mpeg/verif.rs         |  76 +++++++++++++++++++++++
 lofty/src/musepack/mod.rs       |   3 +
 lofty/src/musepack/sv8/mod.rs   |   3 +
 lofty/src/musepack/sv8/verif.rs |  33 ++++++++++
 lofty/src/musepack/verif.rs     |  46 ++++++++++++++
 lofty/src/util/mod.rs           |   3 +
 lofty/src/util/verif.rs         | 104 ++++++++++++++++++++++++++++++++
 lofty/src/wavpack/mod.rs        |   3 +
 lofty/src/wavpack/properties.rs |  22 +++++++
 lofty/src/wavpack/verif.rs      |  24 ++++++++
 33 files changed, 871 insertions(+)
 create mode 100644 lofty/src/aac/verif.rs
 create mode 100644 lofty/src/ape/verif.rs
 create mode 100644 lofty/src/flac/verif.rs
 create mode 100644 lofty/src/id3/v1/verif.rs
 create mode 100644 lofty/src/id3/v2/frame/verif.rs
 create mode 100644 lofty/src/id3/v2/verif.rs
 create mode 100644 lofty/src/iff/aiff/verif.rs
 create mode 100644 lofty/src/iff/verif.rs
 create mode 100644 lofty/src/iff/wav/verif.rs
 create mode 100644 lofty/src/mp4/verif.rs
 create mode 100644 lofty/src/mpeg/verif.rs
 create mode 100644 lofty/src/musepack/sv8/verif.rs
 create mode 100644 lofty/src/musepack/verif.rs
 create mode 100644 lofty/src/util/verif.rs
 create mode 100644 lofty/src/wavpack/verif.rs

diff --git a/lofty/src/aac/mod.rs b/lofty/src/aac/mod.rs
index d70a06f..43bd82f 100644
--- a/lofty/src/aac/mod.rs
+++ b/lofty/src/aac/mod.rs
@@ -6,6 +6,9 @@ mod error;
 mod header;
 mod properties;
 mod read;
+#[cfg(lofty_verif = "aac")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::id3::v1::tag::Id3v1Tag;
 use crate::id3::v2::tag::Id3v2Tag;
diff --git a/lofty/src/aac/verif.rs b/lofty/src/aac/verif.rs
new file mode 100644
index 0000000..6a9749a
--- /dev/null
+++ b/lofty/src/aac/verif.rs
@@ -0,0 +1,49 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="aac"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::header::{ADTSHeader, HEADER_MASK};
+use crate::config::ParsingMode;
+use crate::mp4::AudioObjectType;
+use crate::mpeg::MpegVersion;
+
+use std::io::{Read, Seek};
+
+#[derive(Copy, Clone)]
+pub struct H {
+	pub version: MpegVersion,
+	pub audio_object_ty: AudioObjectType,
+	pub sample_rate: u32,
+	pub channels: u8,
+	pub copyright: bool,
+	pub original: bool,
+	pub len: u16,
+	pub bitrate: u32,
+	pub bytes: [u8; 7],
+	pub has_crc: bool,
+}
+
+pub fn mask() -> u32 {
+	HEADER_MASK
+}
+
+pub fn header_read<R: Read + Seek>(r: &mut R, mode: ParsingMode) -> Result<Option<H>, ()> {
+	match ADTSHeader::read(r, mode) {
+		Ok(h) => Ok(h.map(|h| H {
+			version: h.version,
+			audio_object_ty: h.audio_object_ty,
+			sample_rate: h.sample_rate,
+			channels: h.channels,
+			copyright: h.copyright,
+			original: h.original,
+			len: h.len,
+			bitrate: h.bitrate,
+			bytes: h.bytes,
+			has_crc: h.has_crc,
+		})),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/ape/mod.rs b/lofty/src/ape/mod.rs
index 4e34a37..eaa28ca 100644
--- a/lofty/src/ape/mod.rs
+++ b/lofty/src/ape/mod.rs
@@ -10,6 +10,9 @@ pub mod error;
 mod properties;
 mod read;
 pub(crate) mod tag;
+#[cfg(lofty_verif = "ape")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::id3::v1::tag::Id3v1Tag;
 use crate::id3::v2::tag::Id3v2Tag;
diff --git a/lofty/src/ape/verif.rs b/lofty/src/ape/verif.rs
new file mode 100644
index 0000000..7cc7eb7
--- /dev/null
+++ b/lofty/src/ape/verif.rs
@@ -0,0 +1,50 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="ape"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::ApeProperties;
+use super::tag::ApeTag;
+use super::tag::header::read_ape_header;
+use crate::config::{ParseOptions, ParsingMode, WriteOptions};
+
+use std::io::{Read, Seek};
+
+/// `(size, item_count)`
+pub fn header_read<R: Read + Seek>(r: &mut R, footer: bool) -> Result<(u32, u32), ()> {
+	match read_ape_header(r, footer) {
+		Ok(h) => Ok((h.size, h.item_count)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn tag_read<R: Read + Seek>(
+	r: &mut R,
+	footer: bool,
+	options: ParseOptions,
+) -> Result<Option<ApeTag>, ()> {
+	match super::tag::read::read_ape_tag(r, footer, options) {
+		Ok((t, _)) => Ok(t),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn read_properties<R: Read + Seek>(
+	r: &mut R,
+	stream_len: u64,
+	file_len: u64,
+	mode: ParsingMode,
+) -> Result<ApeProperties, ()> {
+	match super::properties::read_properties(r, stream_len, file_len, mode) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/flac/mod.rs b/lofty/src/flac/mod.rs
index aa01b3d..803b23f 100644
--- a/lofty/src/flac/mod.rs
+++ b/lofty/src/flac/mod.rs
@@ -9,6 +9,9 @@ pub mod error;
 pub(crate) mod properties;
 mod read;
 pub(crate) mod write;
+#[cfg(lofty_verif = "flac")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::config::WriteOptions;
 use crate::error::FileEncodingError;
diff --git a/lofty/src/flac/verif.rs b/lofty/src/flac/verif.rs
new file mode 100644
index 0000000..fdfdd32
--- /dev/null
+++ b/lofty/src/flac/verif.rs
@@ -0,0 +1,62 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="flac"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::block::Block;
+use super::properties::FlacProperties;
+
+use std::io::{Read, Seek};
+
+pub use super::write::verif as write;
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct B {
+	pub ty: u8,
+	pub last: bool,
+	pub content: Vec<u8>,
+	pub start: u64,
+	pub end: u64,
+}
+
+pub fn block_read<R: Read + Seek>(r: &mut R, want: bool) -> Result<B, ()> {
+	match Block::read(r, |_| want) {
+		Ok(b) => Ok(B {
+			ty: b.ty,
+			last: b.last,
+			content: b.content,
+			start: b.start,
+			end: b.end,
+		}),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn block_write(b: B, w: &mut Vec<u8>) -> Result<usize, ()> {
+	let b = Block {
+		ty: b.ty,
+		last: b.last,
+		content: b.content,
+		start: b.start,
+		end: b.end,
+	};
+	match b.write_to(w) {
+		Ok(n) => Ok(n),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn read_properties(mut b: &[u8], stream_len: u64, file_len: u64) -> Result<FlacProperties, ()> {
+	match super::properties::read_properties(&mut b, stream_len, file_len) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 92af60f..37d476f 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -326,6 +326,21 @@ where
 	Ok(metadata_blocks)
 }
 
+#[cfg(lofty_verif = "flac")]
+#[doc(hidden)]
+#[allow(missing_docs, unreachable_pub)]
+pub mod verif {
+	use crate::util::io::FileLike;
+
+	pub fn replace_range<F: FileLike>(
+		file: &mut F,
+		range: std::ops::Range<u64>,
+		replacement: &[u8],
+	) -> std::io::Result<()> {
+		super::replace_range(file, range, replacement)
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
diff --git a/lofty/src/id3/v1/mod.rs b/lofty/src/id3/v1/mod.rs
index 0cdcdae..94a83e7 100644
--- a/lofty/src/id3/v1/mod.rs
+++ b/lofty/src/id3/v1/mod.rs
@@ -19,6 +19,9 @@ pub mod error;
 pub(crate) mod read;
 pub(crate) mod tag;
 pub(crate) mod write;
+#[cfg(lofty_verif = "id3")]
+#[doc(hidden)]
+pub mod verif;
 
 // Exports
 
diff --git a/lofty/src/id3/v1/verif.rs b/lofty/src/id3/v1/verif.rs
new file mode 100644
index 0000000..03342bc
--- /dev/null
+++ b/lofty/src/id3/v1/verif.rs
@@ -0,0 +1,17 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="id3"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::tag::Id3v1Tag;
+use crate::config::WriteOptions;
+
+pub fn encode(tag: &Id3v1Tag, lossy: bool) -> Result<Vec<u8>, ()> {
+	let options = WriteOptions::new().lossy_text_encoding(lossy);
+	match super::write::encode(&tag.into(), options) {
+		Ok(v) => Ok(v),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/id3/v2/frame/mod.rs b/lofty/src/id3/v2/frame/mod.rs
index e4ec424..2a18ac5 100644
--- a/lofty/src/id3/v2/frame/mod.rs
+++ b/lofty/src/id3/v2/frame/mod.rs
@@ -3,6 +3,9 @@ pub(super) mod error;
 pub(super) mod header;
 pub(super) mod list;
 pub(super) mod read;
+#[cfg(lofty_verif = "id3")]
+#[doc(hidden)]
+pub mod verif;
 
 use super::items::{
 	AttachedPictureFrame, BinaryFrame, ChapterFrame, ChapterTableOfContentsFrame, CommentFrame,
diff --git a/lofty/src/id3/v2/frame/verif.rs b/lofty/src/id3/v2/frame/verif.rs
new file mode 100644
index 0000000..c52157f
--- /dev/null
+++ b/lofty/src/id3/v2/frame/verif.rs
@@ -0,0 +1,22 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="id3"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::FrameFlags;
+use crate::config::ParseOptions;
+
+/// `Ok(Some((id, size, flags)))`
+pub fn frame_header(
+	mut b: &[u8],
+	synchsafe: bool,
+	options: ParseOptions,
+) -> Result<Option<(String, u32, FrameFlags)>, ()> {
+	let mut size = 0;
+	match super::header::parse::parse_header(&mut b, &mut size, synchsafe, options) {
+		Ok(h) => Ok(h.map(|(id, f)| (id.as_str().to_owned(), size, f))),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/id3/v2/mod.rs b/lofty/src/id3/v2/mod.rs
index 19b66a3..2a4a808 100644
--- a/lofty/src/id3/v2/mod.rs
+++ b/lofty/src/id3/v2/mod.rs
@@ -16,6 +16,9 @@ mod restrictions;
 pub(crate) mod tag;
 pub mod util;
 pub(crate) mod write;
+#[cfg(lofty_verif = "id3")]
+#[doc(hidden)]
+pub mod verif;
 
 // Exports
 
diff --git a/lofty/src/id3/v2/verif.rs b/lofty/src/id3/v2/verif.rs
new file mode 100644
index 0000000..1093444
--- /dev/null
+++ b/lofty/src/id3/v2/verif.rs
@@ -0,0 +1,85 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="id3"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::header::{Id3v2Header, Id3v2TagFlags, Id3v2Version};
+use crate::config::{ParseOptions, ParsingMode};
+use crate::id3::{FindId3v2Config, ID3FindResults};
+
+use std::io::{Read, Seek};
+
+#[derive(Copy, Clone, Debug)]
+pub struct H {
+	pub version: Id3v2Version,
+	pub flags: Id3v2TagFlags,
+	pub size: u32,
+	pub extended_size: u32,
+	pub full_tag_size: u32,
+}
+
+fn conv(h: Id3v2Header) -> H {
+	H {
+		version: h.version,
+		flags: h.flags,
+		size: h.size,
+		extended_size: h.extended_size,
+		full_tag_size: h.full_tag_size(),
+	}
+}
+
+pub fn header_parse<R: Read>(r: &mut R) -> Result<H, ()> {
+	match Id3v2Header::parse(r) {
+		Ok(h) => Ok(conv(h)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+/// `Ok((header, content))`
+pub fn find_id3v2<R: Read + Seek>(
+	r: &mut R,
+	read: bool,
+	junk_window: Option<u64>,
+) -> Result<(Option<H>, Option<Vec<u8>>), ()> {
+	let config = FindId3v2Config {
+		read,
+		allowed_junk_window: junk_window,
+	};
+	match crate::id3::find_id3v2(r, config) {
+		Ok(ID3FindResults(h, c)) => Ok((h.map(conv), c)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+/// `Ok((found, tag))`
+pub fn find_id3v1<R: Read + Seek>(
+	r: &mut R,
+	read: bool,
+	mode: ParsingMode,
+) -> Result<(bool, Option<crate::id3::v1::Id3v1Tag>), ()> {
+	match crate::id3::find_id3v1(r, read, mode) {
+		Ok(ID3FindResults(h, c)) => Ok((h.is_some(), c)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+/// `Ok((found, size))`
+pub fn find_lyrics3v2<R: Read + Seek>(r: &mut R) -> Result<(bool, u32), ()> {
+	match crate::id3::find_lyrics3v2(r) {
+		Ok(ID3FindResults(h, c)) => Ok((h.is_some(), c)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub use super::frame::verif as frame;
diff --git a/lofty/src/iff/aiff/mod.rs b/lofty/src/iff/aiff/mod.rs
index 0e363d1..6b6270c 100644
--- a/lofty/src/iff/aiff/mod.rs
+++ b/lofty/src/iff/aiff/mod.rs
@@ -4,6 +4,9 @@ pub mod error;
 mod properties;
 mod read;
 pub(crate) mod tag;
+#[cfg(lofty_verif = "iff")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::id3::v2::tag::Id3v2Tag;
 
diff --git a/lofty/src/iff/aiff/verif.rs b/lofty/src/iff/aiff/verif.rs
new file mode 100644
index 0000000..fcc0905
--- /dev/null
+++ b/lofty/src/iff/aiff/verif.rs
@@ -0,0 +1,26 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="iff"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::AiffProperties;
+use super::read::CompressionPresent;
+
+pub fn read_properties(
+	mut comm: &[u8],
+	compression_present: bool,
+	stream_len: u32,
+	file_len: u64,
+) -> Result<AiffProperties, ()> {
+	let c = if compression_present {
+		CompressionPresent::Yes
+	} else {
+		CompressionPresent::No
+	};
+	match super::properties::read_properties(&mut comm, c, stream_len, file_len) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/iff/mod.rs b/lofty/src/iff/mod.rs
index b8baf4e..6ecc2f9 100644
--- a/lofty/src/iff/mod.rs
+++ b/lofty/src/iff/mod.rs
@@ -6,3 +6,6 @@ pub mod aiff;
 pub(crate) mod chunk;
 pub mod error;
 pub mod wav;
+#[cfg(lofty_verif = "iff")]
+#[doc(hidden)]
+pub mod verif;
diff --git a/lofty/src/iff/verif.rs b/lofty/src/iff/verif.rs
new file mode 100644
index 0000000..981e2d1
--- /dev/null
+++ b/lofty/src/iff/verif.rs
@@ -0,0 +1,82 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="iff"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::chunk::Chunks;
+use crate::config::ParsingMode;
+
+use std::io::{Read, Seek};
+
+pub use super::aiff::verif as aiff;
+pub use super::wav::verif as wav;
+
+pub fn valid_fourcc(b: [u8; 4]) -> bool {
+	super::chunk::valid_fourcc(b)
+}
+
+pub struct C<R, B>(Chunks<R, B>);
+
+impl<R: Read + Seek, B: byteorder::ByteOrder> C<R, B> {
+	pub fn new(r: R, size: u64) -> Self {
+		C(Chunks::new(r, size))
+	}
+
+	pub fn stream_position(&self) -> u64 {
+		self.0.stream_position()
+	}
+
+	pub fn into_inner(self) -> R {
+		self.0.into_inner()
+	}
+
+	/// `Ok(Some((fourcc, size, start, content)))`; `action` 0 = leave the content, 1 = read it all,
+	/// n = read up to `n - 1` bytes of it
+	pub fn next(
+		&mut self,
+		mode: ParsingMode,
+		action: u32,
+	) -> Result<Option<([u8; 4], u32, u64, Option<Vec<u8>>)>, ()> {
+		match self.0.next(mode) {
+			Ok(None) => Ok(None),
+			Ok(Some(mut c)) => {
+				let content = match action {
+					0 => None,
+					1 => match c.content() {
+						Ok(v) => Some(v),
+						Err(e) => {
+							core::mem::forget(e);
+							return Err(());
+						},
+					},
+					n => {
+						let mut v = vec![0; n as usize - 1];
+						let n = match c.read(&mut v) {
+							Ok(n) => n,
+							Err(e) => {
+								core::mem::forget(e);
+								return Err(());
+							},
+						};
+						v.truncate(n);
+						Some(v)
+					},
+				};
+				Ok(Some((c.fourcc, c.size(), c.start(), content)))
+			},
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
+
+	pub fn skip(&mut self) -> Result<(), ()> {
+		match self.0.skip() {
+			Ok(()) => Ok(()),
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
+}
diff --git a/lofty/src/iff/wav/mod.rs b/lofty/src/iff/wav/mod.rs
index 463391e..dcf5e28 100644
--- a/lofty/src/iff/wav/mod.rs
+++ b/lofty/src/iff/wav/mod.rs
@@ -4,6 +4,9 @@ pub mod error;
 mod properties;
 pub(crate) mod read;
 pub(crate) mod tag;
+#[cfg(lofty_verif = "iff")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::id3::v2::tag::Id3v2Tag;
 
diff --git a/lofty/src/iff/wav/verif.rs b/lofty/src/iff/wav/verif.rs
new file mode 100644
index 0000000..17d10d7
--- /dev/null
+++ b/lofty/src/iff/wav/verif.rs
@@ -0,0 +1,20 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="iff"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::WavProperties;
+
+pub fn read_properties(
+	mut fmt: &[u8],
+	total_samples: u32,
+	stream_len: u32,
+	file_len: u64,
+) -> Result<WavProperties, ()> {
+	match super::properties::read_properties(&mut fmt, total_samples, stream_len, file_len) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/lib.rs b/lofty/src/lib.rs
index beea83f..2a4c4f2 100644
--- a/lofty/src/lib.rs
+++ b/lofty/src/lib.rs
@@ -103,6 +103,9 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![doc(html_logo_url = "https://raw.githubusercontent.com/Serial-ATA/lofty-rs/main/doc/lofty.svg")]
 
+// The `lofty_verif` hooks are not known to Cargo
+#![allow(unexpected_cfgs)]
+
 // proc macro hacks
 extern crate self as lofty;
 pub(crate) mod _this_is_internal {}
@@ -137,6 +140,10 @@ pub use lofty_attr::LoftyFile;
 
 pub use util::io;
 
+#[cfg(lofty_verif = "util")]
+#[doc(hidden)]
+pub use util::verif as __verif_util;
+
 pub mod prelude {
 	//! A prelude for commonly used items in the library.
 	//!
diff --git a/lofty/src/mp4/mod.rs b/lofty/src/mp4/mod.rs
index 2e41681..29fb0c8 100644
--- a/lofty/src/mp4/mod.rs
+++ b/lofty/src/mp4/mod.rs
@@ -10,6 +10,9 @@ mod moov;
 mod properties;
 mod read;
 mod write;
+#[cfg(lofty_verif = "mp4")]
+#[doc(hidden)]
+pub mod verif;
 
 use lofty_attr::LoftyFile;
 
diff --git a/lofty/src/mp4/verif.rs b/lofty/src/mp4/verif.rs
new file mode 100644
index 0000000..e39fb50
--- /dev/null
+++ b/lofty/src/mp4/verif.rs
@@ -0,0 +1,86 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="mp4"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::atom_info::{AtomIdent, AtomInfo};
+use super::read::AtomReader;
+use crate::config::ParsingMode;
+
+use std::io::{Read, Seek, SeekFrom};
+
+#[derive(Debug, Clone)]
+pub struct A {
+	pub start: u64,
+	pub len: u64,
+	pub extended: bool,
+	pub ident: AtomIdent<'static>,
+	pub header_size: u64,
+}
+
+fn conv(a: AtomInfo) -> A {
+	A {
+		start: a.start,
+		len: a.len,
+		extended: a.extended,
+		header_size: a.header_size(),
+		ident: a.ident,
+	}
+}
+
+pub fn atom_read<R: Read + Seek>(
+	r: &mut R,
+	reader_size: u64,
+	mode: ParsingMode,
+) -> Result<Option<A>, ()> {
+	match AtomInfo::read(r, reader_size, mode) {
+		Ok(a) => Ok(a.map(conv)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn skip_atom<R: Read + Seek>(r: &mut R, extended: bool, len: u64) -> Result<(), ()> {
+	match super::read::skip_atom(r, extended, len) {
+		Ok(()) => Ok(()),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub struct AR<R: Read + Seek>(AtomReader<R>);
+
+impl<R: Read + Seek> AR<R> {
+	pub fn new(r: R, mode: ParsingMode) -> std::io::Result<Self> {
+		AtomReader::new(r, mode).map(AR)
+	}
+
+	pub fn reset_bounds(&mut self, start: u64, len: u64) {
+		self.0.reset_bounds(start, len)
+	}
+
+	pub fn next(&mut self) -> Result<Option<A>, ()> {
+		match self.0.next() {
+			Ok(a) => Ok(a.map(conv)),
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
+
+	pub fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
+		self.0.seek(to)
+	}
+
+	pub fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
+		self.0.read(b)
+	}
+
+	pub fn into_inner(self) -> R {
+		self.0.into_inner()
+	}
+}
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..716ee8b 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -4,6 +4,9 @@ pub mod error;
 pub(crate) mod header;
 mod properties;
 mod read;
+#[cfg(lofty_verif = "mpeg")]
+#[doc(hidden)]
+pub mod verif;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/verif.rs b/lofty/src/mpeg/verif.rs
new file mode 100644
index 0000000..ddf9919
--- /dev/null
+++ b/lofty/src/mpeg/verif.rs
@@ -0,0 +1,76 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="mpeg"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::header::{Header, VbrHeader, VbrHeaderType};
+use super::{ChannelMode, Emphasis, Layer, MpegVersion};
+
+use std::io::{Read, Seek};
+
+#[derive(Copy, Clone, Debug)]
+pub struct H {
+	pub sample_rate: u32,
+	pub len: u32,
+	pub data_start: u32,
+	pub samples: u16,
+	pub bitrate: u32,
+	pub version: MpegVersion,
+	pub layer: Layer,
+	pub channel_mode: ChannelMode,
+	pub mode_extension: Option<u8>,
+	pub copyright: bool,
+	pub original: bool,
+	pub emphasis: Option<Emphasis>,
+}
+
+pub fn header_read(data: u32) -> Option<H> {
+	Header::read(data).map(|h| H {
+		sample_rate: h.sample_rate,
+		len: h.len,
+		data_start: h.data_start,
+		samples: h.samples,
+		bitrate: h.bitrate,
+		version: h.version,
+		layer: h.layer,
+		channel_mode: h.channel_mode,
+		mode_extension: h.mode_extension,
+		copyright: h.copyright,
+		original: h.original,
+		emphasis: h.emphasis,
+	})
+}
+
+pub fn header_cmp(a: u32, b: u32) -> Option<bool> {
+	match (Header::read(a), Header::read(b)) {
+		(Some(a), Some(b)) => Some(a.cmp(&b)),
+		_ => None,
+	}
+}
+
+pub fn verify_frame_sync(b: [u8; 2]) -> bool {
+	super::header::verify_frame_sync(b)
+}
+
+pub fn search_for_frame_sync<R: Read>(r: &mut R) -> std::io::Result<Option<u64>> {
+	super::header::search_for_frame_sync(r)
+}
+
+/// `(type, frames, size)`, type 0 = Xing, 1 = Info, 2 = VBRI
+pub fn vbr_header_read(mut b: &[u8]) -> Result<Option<(u8, u32, u32)>, ()> {
+	match VbrHeader::read(&mut b) {
+		Ok(None) => Ok(None),
+		Ok(Some(h)) => Ok(Some((
+			match h.ty {
+				VbrHeaderType::Xing => 0,
+				VbrHeaderType::Info => 1,
+				VbrHeaderType::Vbri => 2,
+			},
+			h.frames,
+			h.size,
+		))),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/musepack/mod.rs b/lofty/src/musepack/mod.rs
index 6e99bcb..ca70651 100644
--- a/lofty/src/musepack/mod.rs
+++ b/lofty/src/musepack/mod.rs
@@ -5,6 +5,9 @@ mod read;
 pub mod sv4to6;
 pub mod sv7;
 pub mod sv8;
+#[cfg(lofty_verif = "musepack")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::ape::tag::ApeTag;
 use crate::id3::v1::tag::Id3v1Tag;
diff --git a/lofty/src/musepack/sv8/mod.rs b/lofty/src/musepack/sv8/mod.rs
index 673832a..761ff6a 100644
--- a/lofty/src/musepack/sv8/mod.rs
+++ b/lofty/src/musepack/sv8/mod.rs
@@ -2,6 +2,9 @@
 
 mod properties;
 mod read;
+#[cfg(lofty_verif = "musepack")]
+#[doc(hidden)]
+pub mod verif;
 
 // Exports
 
diff --git a/lofty/src/musepack/sv8/verif.rs b/lofty/src/musepack/sv8/verif.rs
new file mode 100644
index 0000000..e689318
--- /dev/null
+++ b/lofty/src/musepack/sv8/verif.rs
@@ -0,0 +1,33 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="musepack"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::properties::{EncoderInfo, MpcSv8Properties, ReplayGain, StreamHeader};
+use super::read::PacketReader;
+
+use std::io::Read;
+
+pub fn read_size<R: Read>(r: &mut R) -> Result<(u64, u8), ()> {
+	match PacketReader::read_size(r) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn properties(
+	stream_len: u64,
+	header: StreamHeader,
+	gain: ReplayGain,
+	info: Option<EncoderInfo>,
+) -> Result<MpcSv8Properties, ()> {
+	match super::properties::read(stream_len, header, gain, info) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/musepack/verif.rs b/lofty/src/musepack/verif.rs
new file mode 100644
index 0000000..1ce71de
--- /dev/null
+++ b/lofty/src/musepack/verif.rs
@@ -0,0 +1,46 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="musepack"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::sv4to6::MpcSv4to6Properties;
+use super::sv7::MpcSv7Properties;
+use super::sv8::MpcSv8Properties;
+use crate::config::ParsingMode;
+
+use std::io::Read;
+
+pub fn sv4to6<R: Read>(
+	r: &mut R,
+	mode: ParsingMode,
+	stream_len: u64,
+) -> Result<MpcSv4to6Properties, ()> {
+	match MpcSv4to6Properties::read(r, mode, stream_len) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn sv7<R: Read>(r: &mut R, stream_len: u64) -> Result<MpcSv7Properties, ()> {
+	match MpcSv7Properties::read(r, stream_len) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn sv8<R: Read>(r: &mut R, mode: ParsingMode) -> Result<MpcSv8Properties, ()> {
+	match MpcSv8Properties::read(r, mode) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub use super::sv8::verif as sv8_parts;
diff --git a/lofty/src/util/mod.rs b/lofty/src/util/mod.rs
index 99aeb90..238689f 100644
--- a/lofty/src/util/mod.rs
+++ b/lofty/src/util/mod.rs
@@ -2,6 +2,9 @@ pub(crate) mod alloc;
 pub mod io;
 pub(crate) mod math;
 pub(crate) mod text;
+#[cfg(lofty_verif = "util")]
+#[doc(hidden)]
+pub mod verif;
 
 pub(crate) fn flag_item(item: &str) -> Option<bool> {
 	match item {
diff --git a/lofty/src/util/verif.rs b/lofty/src/util/verif.rs
new file mode 100644
index 0000000..771615d
--- /dev/null
+++ b/lofty/src/util/verif.rs
@@ -0,0 +1,104 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="util"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::alloc::{VecFallibleCapacity, fallible_vec_from_element};
+use super::io::{ReadFindExt, RevSearchEnd, RevSearchStart};
+use super::math::{F80, RoundedDivision};
+use super::text::{TextDecodeOptions, TextEncoding};
+
+use std::io::{Read, Seek};
+
+pub fn f80(bytes: [u8; 10]) -> f64 {
+	F80::from_be_bytes(bytes).as_f64()
+}
+
+pub fn div_round_u32(a: u32, b: u32) -> u32 {
+	a.div_round(b)
+}
+
+pub fn div_round_u64(a: u64, b: u64) -> u64 {
+	a.div_round(b)
+}
+
+pub fn try_vec(element: u8, n: usize) -> Result<Vec<u8>, ()> {
+	fallible_vec_from_element(element, n).map_err(|_| ())
+}
+
+pub fn try_vec_cap(n: usize) -> Result<Vec<u8>, ()> {
+	Vec::try_with_capacity_stable(n).map_err(|_| ())
+}
+
+/// `start`: 0 = end of the stream, 1 = current position; `end`: 0 = start of the stream, 1 = current
+/// position, 2 = `pos`
+pub fn rfind<R: Read + Seek>(
+	r: &mut R,
+	pattern: &[u8],
+	buffer_size: u64,
+	start: u8,
+	end: u8,
+	pos: u64,
+) -> std::io::Result<bool> {
+	r.rfind(pattern)
+		.buffer_size(buffer_size)
+		.start_pos(if start == 0 {
+			RevSearchStart::FromEnd
+		} else {
+			RevSearchStart::FromCurrent
+		})
+		.end_pos(match end {
+			0 => RevSearchEnd::StreamStart,
+			1 => RevSearchEnd::FromCurrent,
+			_ => RevSearchEnd::Pos(pos),
+		})
+		.search()
+}
+
+pub fn encode(enc: TextEncoding, text: &str, terminated: bool, lossy: bool) -> Result<Vec<u8>, ()> {
+	match enc.encode(text, terminated, lossy) {
+		Ok(v) => Ok(v),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+/// `Ok((content, bytes_read, bom))`
+pub fn decode<R: Read>(
+	r: &mut R,
+	enc: TextEncoding,
+	terminated: bool,
+	bom: [u8; 2],
+) -> Result<(String, usize, [u8; 2]), ()> {
+	let options = TextDecodeOptions::new()
+		.encoding(enc)
+		.terminated(terminated)
+		.bom(bom);
+	match super::text::decode_text(r, options) {
+		Ok(d) => Ok((d.content, d.bytes_read, d.bom)),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
+
+pub fn latin1_decode(b: &[u8]) -> String {
+	super::text::latin1_decode(b)
+}
+
+pub fn utf16_decode_maybe_bom<R: Read>(r: &mut R, be: bool) -> Result<(String, usize), ()> {
+	let f = if be {
+		u16::from_be_bytes
+	} else {
+		u16::from_le_bytes
+	};
+	match super::text::utf16_decode_terminated_maybe_bom(r, f) {
+		Ok(d) => Ok(d),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
diff --git a/lofty/src/wavpack/mod.rs b/lofty/src/wavpack/mod.rs
index 0a9373a..485783d 100644
--- a/lofty/src/wavpack/mod.rs
+++ b/lofty/src/wavpack/mod.rs
@@ -2,6 +2,9 @@
 pub mod error;
 mod properties;
 mod read;
+#[cfg(lofty_verif = "wavpack")]
+#[doc(hidden)]
+pub mod verif;
 
 use crate::ape::tag::ApeTag;
 use crate::id3::v1::tag::Id3v1Tag;
diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..2827279 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -438,3 +438,25 @@ fn get_extended_meta_info(
 
 	Ok(())
 }
+
+#[cfg(lofty_verif = "wavpack")]
+#[doc(hidden)]
+#[allow(missing_docs, unreachable_pub)]
+pub mod verif {
+	use super::WavPackProperties;
+	use crate::config::ParsingMode;
+
+	pub fn extended_meta_info(
+		mode: ParsingMode,
+		content: &[u8],
+		properties: &mut WavPackProperties,
+	) -> Result<(), ()> {
+		match super::get_extended_meta_info(mode, content, properties) {
+			Ok(()) => Ok(()),
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
+}
diff --git a/lofty/src/wavpack/verif.rs b/lofty/src/wavpack/verif.rs
new file mode 100644
index 0000000..9bcbe98
--- /dev/null
+++ b/lofty/src/wavpack/verif.rs
@@ -0,0 +1,24 @@
+//! Verification hooks: thin public wrappers over private items, compiled only with
+//! `--cfg lofty_verif="wavpack"`.
+#![allow(missing_docs, dead_code, unreachable_pub, unused_imports, clippy::all, clippy::pedantic)]
+
+use super::WavPackProperties;
+use crate::config::ParsingMode;
+
+use std::io::{Read, Seek};
+
+pub use super::properties::verif as properties;
+
+pub fn read_properties<R: Read + Seek>(
+	r: &mut R,
+	stream_len: u64,
+	mode: ParsingMode,
+) -> Result<WavPackProperties, ()> {
+	match super::properties::read_properties(r, stream_len, mode) {
+		Ok(p) => Ok(p),
+		Err(e) => {
+			core::mem::forget(e);
+			Err(())
+		},
+	}
+}
-- 
2.43.0


From 445059021b9ce48a5405a8782f0f53d28632cdcc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 02/53] fix: round MPEG Layer I frame lengths down to whole
 4-byte slots

---
 lofty/src/mpeg/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..9ed877e 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -314,8 +314,11 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+
+		// A frame is made of whole slots. In Layer I, a slot is 4 bytes.
+		let slot_size = u32::from(PADDING_SIZES[layer_index]);
+		let unpadded_len = u32::from(header.samples) * header.bitrate * 125 / header.sample_rate;
+		header.len = (unpadded_len / slot_size * slot_size) + padding;
 
 		Some(header)
 	}
-- 
2.43.0


From 5da8c9106632c642a69d8781e4843830d1d42e5c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 03/53] fix: convert 80-bit floats outside of the f64 range
 without wrapping their exponent

---
 lofty/src/util/math.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/math.rs b/lofty/src/util/math.rs
index 229c28f..f0ab293 100644
--- a/lofty/src/util/math.rs
+++ b/lofty/src/util/math.rs
@@ -84,8 +84,21 @@ impl F80 {
 
 		// 0 <= e <= 32766, 0 <= i <= 1, f >= 0
 
-		let fraction = self.fraction & 0x7FFF_FFFF_FFFF_FFFF;
-		let exponent = self.exponent as i16 - 16383 + 1023;
+		// Normalize, `f64` has no explicit integer bit
+		let shift = self.fraction.leading_zeros();
+		let fraction = (self.fraction << shift) & 0x7FFF_FFFF_FFFF_FFFF;
+		let exponent = i32::from(self.exponent) - 16383 + 1023 - shift as i32;
+
+		// Too large for an `f64`
+		if exponent >= 2047 {
+			return f64::from_bits((sign << 63) | f64::INFINITY.to_bits());
+		}
+
+		// Too small for a normalized `f64`
+		if exponent <= 0 {
+			return f64::from_bits(sign << 63);
+		}
+
 		let bits = (sign << 63) | ((exponent as u64) << 52) | (fraction >> 11);
 
 		f64::from_bits(bits)
-- 
2.43.0


From 06a8e71f0fd1b4323d2fbfa389583f967d300395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 04/53] fix: compute Musepack bitrates and durations without
 overflow or division by zero

SV8: the sample count and the packet lengths are up to 63 bits wide and
come from the file, so multiplying them in 64 bits overflows.
SV7: a true gapless stream of a single frame with no used samples has no
samples to divide by.
---
 lofty/src/musepack/sv7/properties.rs | 6 ++++++
 lofty/src/musepack/sv8/properties.rs | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..310fe7f 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -380,6 +380,12 @@ impl MpcSv7Properties {
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
+		// A single frame with no used samples
+		if total_samples == 0 {
+			log::warn!("Sample count is 0, unable to calculate bitrate");
+			return Ok(properties);
+		}
+
 		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
 			/ (total_samples * 1000)) as u32;
 
diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..7a36ae2 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,13 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	// The sample count can be any 63-bit number, so the products may not fit in 64 bits
+	let total_millis = u128::from(total_samples) * 1000;
+	let length = total_millis.div_round(u128::from(sample_rate));
 
-	properties.duration = Duration::from_millis(length);
+	properties.duration = Duration::from_millis(length as u64);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+		((u128::from(stream_length) * 8 * u128::from(sample_rate)) / total_millis) as u32;
 
 	Ok(properties)
 }
-- 
2.43.0


From 21854733061372a3bf0845f1fbf4782408f994f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 05/53] fix: skip exactly the WavPack channel information block

The channel count was not counted as read, so one byte too many was
skipped and the following blocks were misread. The stream count of the
extended layout was also taken as the high bits of the channel count.
---
 lofty/src/wavpack/properties.rs | 54 +++++++++------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index 2827279..a2d872e 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -370,55 +370,31 @@ fn get_extended_meta_info(
 					));
 				}
 
+				// 1 to 4 bytes of channel mask follow the channel count. If there are 6 or 7 bytes, the
+				// channel count is extended to 12 bits, stored minus one and along with the stream count:
+				//
+				// channels (low 8 bits), streams (low 8 bits), streams and channels (high 4 bits each), mask (3 or 4)
 				properties.channels = u16::from(reader.read_u8()?);
 
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
-					0 => {
-						let channel_mask = reader.read_u8()?;
-						size -= 1;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					1 => {
-						let channel_mask = reader.read_u16::<LittleEndian>()?;
-						size -= 2;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					2 => {
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 3;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					3 => {
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 4;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					4 => {
+				let mask_size = match size {
+					2..=5 => size - 1,
+					6 | 7 => {
+						let _streams = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
-
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
-
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					5 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
-
-						properties.channel_mask = ChannelMask(channel_mask);
+						size - 3
 					},
 					_ => {
 						return Err(WavPackParseError::message(
 							"encountered invalid channel info size",
 						));
 					},
-				}
+				};
+
+				let mut mask = [0; 4];
+				reader.read_exact(&mut mask[..mask_size as usize])?;
+				properties.channel_mask = ChannelMask(u32::from_le_bytes(mask));
+				size = 0;
 			},
 			_ => {},
 		}
-- 
2.43.0


From 6efe62ea1015cae5f9059c592226833e6223b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 06/53] fix: read ID3v2 extended headers as specified and seek
 past the tag exactly

The size of a tag includes its extended header, but it was skipped or read
in addition to it, so everything after the tag was misplaced by its size.
The ID3v2.3 layout (size excluding itself, two flag bytes, padding size) and
the data of the ID3v2.4 update flag were misread as ID3v2.4 CRC data and
frames, and the buffering of the unsynchronisation reader lost the bytes
after the extended header. A header that turns out not to be one leaves the
reader where the search started.
---
 lofty/src/id3/mod.rs       |   9 ++-
 lofty/src/id3/v2/header.rs | 152 ++++++++++++++++++++++++++-----------
 lofty/src/mpeg/read.rs     |   2 +-
 3 files changed, 116 insertions(+), 47 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..d6a69a8 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -205,13 +205,16 @@ where
 	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
 		log::debug!("Found an ID3v2 tag, parsing");
 
+		// The extended header has been read along with the header
+		let content_size = id3v2_header.size - id3v2_header.extended_size;
+
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; content_size as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 		}
 
 		if id3v2_header.flags.footer {
@@ -220,7 +223,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..41adde5 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -97,6 +97,7 @@ pub(crate) struct Id3v2Header {
 	pub flags: Id3v2TagFlags,
 	/// The size of the tag contents (**DOES NOT INCLUDE THE HEADER/FOOTER**)
 	pub size: u32,
+	/// The number of bytes the extended header occupies at the start of the tag contents
 	pub extended_size: u32,
 }
 
@@ -150,30 +151,7 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
-				// In ID3v2.3, the extended header is considered separate from the frame header, and
-				// thus subject to unsynchronization
-				Id3v2Version::V3 => {
-					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
-					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
-				},
-				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
-				_ => unreachable!(),
-			}
-		}
-
-		if extended_size > 0 && extended_size >= size {
-			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			extended_size = read_extended_header(bytes, &mut flags_parsed, version, size)?;
 		}
 
 		Ok(Id3v2Header {
@@ -186,40 +164,128 @@ impl Id3v2Header {
 
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		// The extended header is already part of `size`
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
+	}
+}
+
+/// A reader over the bytes of an extended header
+///
+/// This keeps track of the number of bytes it took out of the underlying reader.
+struct ExtendedHeaderReader<'a, R> {
+	reader: &'a mut R,
+	unsynchronised: bool,
+	last_byte: u8,
+	bytes_read: u32,
+}
+
+impl<R: Read> ExtendedHeaderReader<'_, R> {
+	fn next_byte(&mut self) -> Result<u8, Id3v2ParseError> {
+		let mut byte = self.reader.read_u8()?;
+		self.bytes_read += 1;
+
+		if self.unsynchronised && self.last_byte == 0xFF && byte == 0 {
+			byte = self.reader.read_u8()?;
+			self.bytes_read += 1;
+		}
+
+		self.last_byte = byte;
+		Ok(byte)
+	}
+
+	fn next_u32(&mut self) -> Result<u32, Id3v2ParseError> {
+		let mut bytes = [0; 4];
+		for byte in &mut bytes {
+			*byte = self.next_byte()?;
+		}
+		Ok(u32::from_be_bytes(bytes))
 	}
 }
 
+/// Read the extended header, returning the number of bytes it occupies
 fn read_extended_header<R: Read>(
 	reader: &mut R,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
-) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
+	version: Id3v2Version,
+	tag_size: u32,
+) -> Result<u32, Id3v2ParseError> {
+	let mut reader = ExtendedHeaderReader {
+		reader,
+		// In ID3v2.3, the extended header is considered separate from the frame header, and
+		// thus subject to unsynchronization
+		//
+		// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
+		unsynchronised: version == Id3v2Version::V3 && flags.unsynchronisation,
+		last_byte: 0,
+		bytes_read: 0,
+	};
+
+	// The number of bytes following the size. Only ID3v2.4 includes the size itself.
+	let mut remaining = reader.next_u32()?;
+	if version == Id3v2Version::V4 {
+		remaining = remaining.unsynch();
+	}
+
+	if remaining < 6 || remaining >= tag_size {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
-	// Useless byte since there's only 1 byte for flags
-	let _num_flag_bytes = reader.read_u8()?;
+	if version == Id3v2Version::V4 {
+		remaining -= 4;
+	}
 
-	let extended_flags = reader.read_u8()?;
+	if version == Id3v2Version::V3 {
+		// Extended flags (2), the rest (size of padding, CRC) is of no interest
+		flags.crc = reader.next_byte()? & 0x80 == 0x80;
+		remaining -= 1;
+	} else {
+		// Useless byte since there's only 1 byte for flags
+		let _num_flag_bytes = reader.next_byte()?;
+		let extended_flags = reader.next_byte()?;
+		remaining -= 2;
+
+		// Every flag has its data preceded by its length
+		for flag in [0x40, 0x20, 0x10] {
+			if extended_flags & flag == 0 {
+				continue;
+			}
 
-	// The only flags we care about here are the CRC and restrictions
+			// The length bytes are constants, so we can go without them.
+			//
+			// Update (0), CRC (5), and restrictions (1)
+			let data_length = match flag {
+				0x40 => 0,
+				0x20 => 5,
+				_ => 1,
+			};
+
+			if remaining < 1 + data_length {
+				return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			}
+			remaining -= 1 + data_length;
 
-	if extended_flags & 0x20 == 0x20 {
-		flags.crc = true;
+			let mut last_byte = reader.next_byte()?;
+			for _ in 0..data_length {
+				last_byte = reader.next_byte()?;
+			}
 
-		// We don't care about the existing CRC (5) or its length byte (1)
-		let mut crc = [0; 6];
-		reader.read_exact(&mut crc)?;
+			match flag {
+				// We don't care about the existing CRC
+				0x20 => flags.crc = true,
+				0x10 => flags.restrictions = Some(TagRestrictions::from_byte(last_byte)),
+				_ => {},
+			}
+		}
 	}
 
-	if extended_flags & 0x10 == 0x10 {
-		// We don't care about the length byte, it is always 1
-		let _data_length = reader.read_u8()?;
+	// Anything else is unknown, and just gets skipped
+	for _ in 0..remaining {
+		let _ = reader.next_byte()?;
+	}
 
-		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
+	if reader.bytes_read >= tag_size {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
-	Ok(())
+	Ok(reader.bytes_read)
 }
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..b9d162c 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -59,7 +59,7 @@ where
 					}
 					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					reader.seek(SeekFrom::Current(i64::from(header.size - header.extended_size)))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From 709f32e9be0b39090f9a123a95c2994e58895803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 07/53] fix: flag written ID3v2 extended headers and lay them
 out per version

---
 lofty/src/id3/v2/write/mod.rs | 76 ++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..17348e4 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -111,7 +111,6 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 
 	let has_footer = tag.flags.footer;
 	let needs_crc = tag.flags.crc;
-	let has_restrictions = tag.flags.restrictions.is_some();
 
 	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
 	let header_len = id3v2.get_ref().len();
@@ -124,6 +123,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	}
 
 	let mut len = id3v2.get_ref().len() - header_len;
+	let frames_end = header_len + len;
 
 	// https://mutagen-specs.readthedocs.io/en/latest/id3/id3v2.4.0-structure.html#padding:
 	//
@@ -140,26 +140,27 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	id3v2.write_u32::<BigEndian>((extended_header_len + len as u32).synch()?)?;
 
 	if needs_crc {
-		// The CRC is calculated on all the data between the header and footer
-		#[allow(unused_mut)]
-		// Past the CRC
-		let mut content_start_idx = 22;
-
-		if has_restrictions {
-			content_start_idx += 3;
+		// The CRC is calculated on all the frames, following the extended header
+		let crc = calculate_crc(&id3v2.get_ref()[header_len..frames_end]);
+
+		if is_id3v23 {
+			// Skip 16 bytes
+			//
+			// Normal ID3v2 header (10)
+			// Extended header size and flags (6)
+			let padding_len = (header_len + len - frames_end) as u32;
+			id3v2.seek(SeekFrom::Start(16))?;
+			id3v2.write_u32::<BigEndian>(padding_len)?;
+			id3v2.write_u32::<BigEndian>(crc)?;
+		} else {
+			// Skip 16 bytes
+			//
+			// Normal ID3v2 header (10)
+			// Extended header (6)
+			id3v2.seek(SeekFrom::Start(16))?;
+			id3v2.write_u8(5)?;
+			id3v2.write_all(&encode_crc(crc))?;
 		}
-
-		// Skip 16 bytes
-		//
-		// Normal ID3v2 header (10)
-		// Extended header (6)
-		id3v2.seek(SeekFrom::Start(16))?;
-
-		let tag_contents = &id3v2.get_ref()[content_start_idx..];
-		let encoded_crc = calculate_crc(tag_contents);
-
-		id3v2.write_u8(5)?;
-		id3v2.write_all(&encoded_crc)?;
 	}
 
 	if has_footer {
@@ -207,19 +208,38 @@ fn create_tag_header(
 		header.write_all(&[4, 0])?;
 	}
 
-	let extended_header = flags.crc || flags.restrictions.is_some();
+	// There are no tag restrictions in ID3v2.3
+	let extended_header = flags.crc || (!is_id3v23 && flags.restrictions.is_some());
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
 	let mut extended_header_size = 0;
-	if extended_header {
+	if extended_header && is_id3v23 {
+		// Structure of extended header:
+		//
+		// Size (4), excluding itself
+		// Flags (2)
+		// Size of padding (4)
+		// CRC (4)
+		extended_header_size = 14_u32;
+
+		header.write_u32::<BigEndian>(10)?;
+		header.write_u16::<BigEndian>(0x8000)?;
+
+		// The padding size and the CRC will be written later
+		header.write_all(&[0; 8])?;
+	} else if extended_header {
 		// Structure of extended header:
 		//
 		// Size (4)
@@ -262,14 +282,16 @@ fn create_tag_header(
 }
 
 // https://github.com/rstemmer/id3edit/blob/0246f3dc1a7a80a64461eeeb7b9ee88379003eb1/encoding/crc.c#L6:6
-fn calculate_crc(content: &[u8]) -> [u8; 5] {
-	let crc: u32 = content
+fn calculate_crc(content: &[u8]) -> u32 {
+	content
 		.iter()
-		.fold(!0, |crc, octet| {
+		.fold(!0_u32, |crc, octet| {
 			(crc >> 8) ^ CRC32_TABLE[(((crc & 0xFF) ^ u32::from(*octet)) & 0xFF) as usize]
 		})
-		.not();
+		.not()
+}
 
+fn encode_crc(crc: u32) -> [u8; 5] {
 	// The CRC-32 is stored as an 35 bit synchsafe integer, leaving the upper
 	// four bits always zeroed.
 	let mut encoded_crc = [0; 5];
-- 
2.43.0


From b521f03cb0c3333a40496d418bb0c79db9231971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 08/53] fix: write the ID3v2.3 experimental flag to its bit and
 no ID3v2.3 footers

---
 lofty/src/id3/v2/header.rs    | 6 +-----
 lofty/src/id3/v2/write/mod.rs | 3 ++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 41adde5..4ffff77 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,11 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
-		}
-
-		if self.footer {
-			byte |= 0x10;
+			byte |= 0x20;
 		}
 
 		byte
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 17348e4..394e313 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -109,7 +109,8 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		log::debug!("Using ID3v2.3");
 	}
 
-	let has_footer = tag.flags.footer;
+	// There are no footers in ID3v2.3
+	let has_footer = tag.flags.footer && !is_id3v23;
 	let needs_crc = tag.flags.crc;
 
 	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
-- 
2.43.0


From 9cb797763d8eb274debb86ef74f3423cb4f86ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 09/53] fix: do not flag written ID3v2 content as
 unsynchronised or compressed

---
 lofty/src/id3/v2/write/frame.rs | 9 ++++++++-
 lofty/src/id3/v2/write/mod.rs   | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..ee2fe70 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -295,18 +295,25 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
+	// Frames are never written unsynchronised
+	flags.unsynchronisation = false;
+
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
+	// The content is written as-is, with no compression or data length preceding it
+	flags.compression = false;
+	flags.data_length_indicator = None;
+
 	let len = value.len() as u32;
 	let is_grouping_identity = flags.grouping_identity.is_some();
 
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 394e313..15cf28a 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -194,11 +194,14 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 }
 
 fn create_tag_header(
-	flags: Id3v2TagFlags,
+	mut flags: Id3v2TagFlags,
 	is_id3v23: bool,
 ) -> Result<(Cursor<Vec<u8>>, u32), Id3v2EncodingError> {
 	let mut header = Cursor::new(Vec::new());
 
+	// Tags are never written unsynchronised
+	flags.unsynchronisation = false;
+
 	header.write_all(b"ID3")?;
 
 	if is_id3v23 {
-- 
2.43.0


From 255d3de9d17243018c1bad054cfddfbff14347e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 10/53] fix: mark Ogg packets as finished on the page that
 holds their last lacing value

---
 ogg_pager/src/paginate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..16fb3cc 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -170,7 +170,8 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		// A packet that fills the page up to its last byte is only terminated by the nil page following it
+		if packet.is_empty() && ctx.remaining_page_size != 0 {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
-- 
2.43.0


From eaa026752a9c53b31418faf102d9e103ea08a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 11/53] fix: keep empty packets when paginating

---
 ogg_pager/src/paginate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 16fb3cc..a9eb7f5 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -199,14 +199,16 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	//
 	// From <https://xiph.org/ogg/doc/framing.html>:
 	// "Note also that a 'nil' (zero length) packet is not an error; it consists of nothing more than a lacing value of zero in the header."
-	if ctx.current_packet_len != 0
-		&& ctx
-			.current_packet_len
-			.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
+	//
+	// An empty packet is such a page on its own.
+	if ctx
+		.current_packet_len
+		.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
 	{
 		ctx.flags.packet_finished_on_page = true;
 		let mut nil_content = Vec::new();
 		ctx.flush_page(&mut nil_content);
+		ctx.flags.first_page = false;
 	}
 
 	Ok(())
-- 
2.43.0


From 464b4e4d0d37df828ee67f8532673253cded04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:21 +0000
Subject: [PATCH 12/53] fix: do not lose unsynchronised bytes when the reader
 fails

UnsynchronizedStream::read refilled its buffer after it had copied bytes,
and lost them if the reader then returned an error (Interrupted, say).
---
 lofty/src/id3/v2/util/synchsafe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..8d142ec 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -111,6 +111,11 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
+				// Never refill with bytes already copied, they would be lost if the reader fails
+				if dest_pos > 0 {
+					break;
+				}
+
 				self.bytes_available = self.reader.read(&mut self.buf)?;
 				self.pos = 0;
 			}
-- 
2.43.0


From aad21449896b9a3484000972e0d27decd5a3f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 13/53] fix: check IFF chunk sizes against what follows their
 header

The size was compared to the remaining size including the 8 byte header,
so a chunk could exceed its stream by up to 8 bytes unnoticed.
---
 lofty/src/iff/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/iff/chunk.rs b/lofty/src/iff/chunk.rs
index 68600de..18a9522 100644
--- a/lofty/src/iff/chunk.rs
+++ b/lofty/src/iff/chunk.rs
@@ -96,6 +96,7 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 		}
 
 		let size = self.reader.read_u32::<B>()?;
+		self.remaining_size -= u64::from(IFF_CHUNK_HEADER_SIZE);
 
 		log::trace!(
 			"Parsed chunk header: (FourCC={}, size={size})",
@@ -116,7 +117,6 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 			return Ok(None);
 		}
 
-		self.remaining_size -= u64::from(IFF_CHUNK_HEADER_SIZE);
 		self.current_chunk_size = size;
 		self.current_chunk_remaining_size = size;
 
-- 
2.43.0


From ba558cd9c851d462903cd4845e298432eee0bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 14/53] Verification hooks: chunk locks and seeks

---
 lofty/src/iff/verif.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/lofty/src/iff/verif.rs b/lofty/src/iff/verif.rs
index 981e2d1..e34abd9 100644
--- a/lofty/src/iff/verif.rs
+++ b/lofty/src/iff/verif.rs
@@ -79,4 +79,37 @@ impl<R: Read + Seek, B: byteorder::ByteOrder> C<R, B> {
 			},
 		}
 	}
+
+	pub fn lock(&mut self) {
+		self.0.lock();
+	}
+
+	pub fn unlock(&mut self) -> Result<(), ()> {
+		match self.0.unlock() {
+			Ok(()) => Ok(()),
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
+
+	/// the reading position within the last chunk is moved, and its end is where it was
+	pub fn next_seek(
+		&mut self,
+		mode: ParsingMode,
+		seeks: &[std::io::SeekFrom],
+	) -> Result<Option<([u8; 4], u32, Vec<Option<u64>>)>, ()> {
+		match self.0.next(mode) {
+			Ok(None) => Ok(None),
+			Ok(Some(mut c)) => {
+				let out = seeks.iter().map(|s| c.seek(*s).ok()).collect();
+				Ok(Some((c.fourcc, c.size(), out)))
+			},
+			Err(e) => {
+				core::mem::forget(e);
+				Err(())
+			},
+		}
+	}
 }
-- 
2.43.0


From ff1b53a7044a7a1c85db0f12d12efb51964d7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 15/53] fix: check MP4 atom lengths against their whole header

A 64-bit length below 16, and a length of up to 8 bytes beyond the data,
were accepted, a length up to the end of the file omitted the header, and
the length of a freeform atom could underflow.
---
 lofty/src/mp4/atom_info.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..07865ab 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -145,7 +145,7 @@ impl AtomInfo {
 
 	fn read_inner<R>(
 		reader: &mut R,
-		mut reader_size: u64,
+		reader_size: u64,
 		parse_mode: ParsingMode,
 		in_freeform: bool,
 	) -> Result<Option<Self>, AtomParseError>
@@ -190,22 +190,29 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				// `len` includes the header
+				(end.saturating_sub(start), false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = if extended {
+			ATOM_HEADER_LEN + 8
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
-			return Err(NotEnoughDataError::new(Some(8)).into());
+			return Err(NotEnoughDataError::new(Some(header_len as usize)).into());
 		}
 
 		// `len` includes itself and the identifier
-		if (len - ATOM_HEADER_LEN) > reader_size {
+		if len > reader_size {
 			log::warn!(
 				"Atom size exceeds remaining data (ident={} len={}, remaining={})",
 				identifier.escape_ascii(),
@@ -228,12 +235,7 @@ impl AtomInfo {
 
 		let atom_ident;
 		if identifier == *b"----" && !in_freeform {
-			reader_size -= ATOM_HEADER_LEN;
-			if reader_size < ATOM_HEADER_LEN {
-				return Err(NotEnoughDataError::new(Some(ATOM_HEADER_LEN as usize)).into());
-			}
-
-			atom_ident = parse_freeform(reader, len - ATOM_HEADER_LEN, parse_mode)?;
+			atom_ident = parse_freeform(reader, len - header_len, parse_mode)?;
 		} else {
 			atom_ident = AtomIdent::Fourcc(identifier);
 		}
-- 
2.43.0


From a191b2deb52f4a8caca72a13c7bfe0aca279c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 16/53] fix: keep AtomReader within its bounds when seeking

Seeking mixed positions relative to the bounds with absolute ones, and
miscounted what remains after seeking from the start or end.
---
 lofty/src/mp4/read/atom_reader.rs | 44 +++++++++++--------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..c37d4d7 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -113,41 +113,29 @@ where
 	R: Read + Seek,
 {
 	fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
-		match pos {
-			SeekFrom::Start(s) => {
-				if s > self.len {
-					self.remaining_size = 0;
-
-					let bound_end = self.start + self.len;
-					return self.reader.seek(SeekFrom::Start(bound_end));
-				}
+		// All positions are those of the inner reader, as in `stream_position()` and `AtomInfo::start`
+		let bound_end = self.start.saturating_add(self.len);
 
-				let ret = self.reader.seek(SeekFrom::Start(self.start + s))?;
-				self.remaining_size = self.len.saturating_sub(ret);
-				Ok(ret)
+		let ret = match pos {
+			SeekFrom::Start(s) => {
+				let target = s.max(self.start).min(bound_end);
+				self.reader.seek(SeekFrom::Start(target))?
 			},
 			SeekFrom::End(s) => {
-				if s >= 0 {
-					self.remaining_size = 0;
-					return self.reader.seek(SeekFrom::Start(self.start + self.len));
+				let mut target = bound_end;
+				if s < 0 {
+					target = bound_end
+						.saturating_sub(s.unsigned_abs())
+						.max(self.start);
 				}
 
-				let bound_end = self.start + self.len;
-				let relative_seek_count = core::cmp::min(self.len, s.unsigned_abs());
-				self.reader.seek(SeekFrom::Start(
-					bound_end.saturating_sub(relative_seek_count),
-				))
+				self.reader.seek(SeekFrom::Start(target))?
 			},
-			SeekFrom::Current(s) => {
-				if s.is_negative() {
-					self.remaining_size = self.remaining_size.saturating_add(s.unsigned_abs());
-				} else {
-					self.remaining_size = self.remaining_size.saturating_sub(s as u64);
-				}
+			SeekFrom::Current(_) => self.reader.seek(pos)?,
+		};
 
-				self.reader.seek(pos)
-			},
-		}
+		self.remaining_size = bound_end.saturating_sub(ret);
+		Ok(ret)
 	}
 }
 
-- 
2.43.0


From ba43b0d57f3fef13bfa17d0c8727795abf9ad0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 17/53] fix: take the 16 byte header of extended MP4 atoms into
 account

Skipping one moved 8 bytes too far, and its content was assumed to start
8 bytes early.
---
 lofty/src/mp4/moov.rs       |  4 ++--
 lofty/src/mp4/properties.rs | 14 +++++++-------
 lofty/src/mp4/read/mod.rs   | 29 +++++++++++++++++------------
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..ed0bd9b 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -138,7 +138,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_atom_size = atom.len - atom.header_size();
 			break;
 		}
 
@@ -147,7 +147,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_atom_size).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..049986f 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -307,9 +307,9 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.start + mdia.header_size()))?;
 
-		let mut read = 8;
+		let mut read = mdia.header_size();
 		while read < mdia.len {
 			let Some(atom) = reader.next()? else { break };
 
@@ -493,7 +493,7 @@ impl Minf {
 			let mut stsd_data = None;
 			let mut stts = None;
 
-			let mut read = 8;
+			let mut read = stbl.header_size();
 			while read < stbl.len {
 				let Some(atom) = reader.next()? else { break };
 
@@ -509,7 +509,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; (atom.len - atom.header_size()) as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -682,7 +682,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.start + mdhd.header_size()))?;
 	let Mdhd {
 		timescale,
 		duration,
@@ -701,7 +701,7 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
+	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
 	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
 		return Ok(properties);
 	};
@@ -1029,7 +1029,7 @@ where
 
 	while let Ok(Some(atom)) = reader.next() {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.len - atom.header_size());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..a015b02 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -61,7 +61,10 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	reader.reset_bounds(
+		moov_info.start + moov_info.header_size(),
+		moov_info.len - moov_info.header_size(),
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,20 +100,22 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
-
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
-
-	let pos = reader.stream_position()?;
+	let header_len = if extended {
+		ATOM_HEADER_LEN + 8
+	} else {
+		ATOM_HEADER_LEN
+	};
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Some(content_len) = len
+		.checked_sub(header_len)
+		.and_then(|content_len| i64::try_from(content_len).ok())
+	else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	log::trace!("Attempting to skip {content_len} bytes");
+
+	reader.seek(SeekFrom::Current(content_len))?;
 
 	Ok(())
 }
-- 
2.43.0


From 38f02e3a27f71d8230bc5ab298bcfecdbe75784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 18/53] fix: find Lyrics3v2 tags

---
 lofty/src/id3/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index d6a69a8..c8a071e 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -83,22 +83,26 @@ where
 	let mut header = None;
 	let mut size = 0_u32;
 
-	data.seek(SeekFrom::Current(-15))?;
+	// Reader is too small to contain a Lyrics3v2 tag
+	if data.seek(SeekFrom::Current(-15)).is_err() {
+		return Ok(ID3FindResults(header, size));
+	}
 
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The stored size does not include itself or the end marker
+		size += lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From fe11e682f1c5e674d8c15100f1dfe7cdc686ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 19/53] fix: APEv2 tags without a header are not 32 bytes
 longer

---
 lofty/src/ape/tag/header.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..44b787d 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -3,7 +3,6 @@ use crate::error::SizeMismatchError;
 use crate::util::io::SeekStreamLen;
 
 use std::io::{Read, Seek, SeekFrom};
-use std::ops::Neg;
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -29,18 +28,19 @@ where
 
 	let item_count = data.read_u32::<LittleEndian>()?;
 
+	let flags = data.read_u32::<LittleEndian>()?;
+
 	if footer {
-		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		// No point in reading the rest of the footer (8 bytes), just seek back to the first item
+		data.seek(SeekFrom::Current(8 - i64::from(size)))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
-		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		// There are 8 reserved bytes remaining in the header
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and it is optional in version 2 (bit 31 of the flags)
+	let has_header = !footer || (flags >> 31) == 1;
+	if version == 2000 && has_header {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 17a728dbd44191702ad5df5471541d5d3018c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 20/53] fix: find APE tags at the start of a file when saving

---
 lofty/src/ape/tag/write.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..290bd75 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
@@ -81,8 +78,10 @@ where
 	match read::read_ape_tag(file, false, write_options.parse_options)
 		.map_err(TagParseError::from)?
 	{
-		(Some(mut existing_tag), Some(header)) => {
-			if write_options.respect_read_only {
+		(existing_tag, Some(header)) => {
+			if let Some(mut existing_tag) = existing_tag
+				&& write_options.respect_read_only
+			{
 				// Only keep metadata around that's marked read only
 				existing_tag.items.retain(|i| i.read_only);
 
@@ -113,10 +112,12 @@ where
 
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
-	if let (Some(mut existing_tag), Some(header)) =
+	if let (existing_tag, Some(header)) =
 		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		if write_options.respect_read_only {
+		if let Some(mut existing_tag) = existing_tag
+			&& write_options.respect_read_only
+		{
 			existing_tag.items.retain(|i| i.read_only);
 
 			if !existing_tag.items.is_empty() {
-- 
2.43.0


From fbcc622f55554af9e31831475d1b9adb7c615d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 21/53] fix: skip APE tags at the start of a file exactly

---
 lofty/src/ape/read.rs  | 5 +++++
 lofty/src/mpeg/read.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..acab40a 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -96,7 +96,12 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					// The items and the footer
+					data.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 				}
+
+				data.read_exact(&mut header)?;
 			},
 			_ => {
 				return Err(ApeParseError::message(
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index b9d162c..47cc977 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -90,7 +90,8 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						// The items and the footer
+						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
 					continue;
-- 
2.43.0


From c3bb45afdc1e8ea72540088003d3616b5a21b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 22/53] fix: restore the position after an unsuccessful
 backward search

---
 lofty/src/util/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..d4b0a9b 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -439,6 +439,7 @@ where
 			current_pos -= std::cmp::min(read_size, overlap_step);
 		}
 
+		self.reader.seek(SeekFrom::Start(original_pos))?;
 		Ok(false)
 	}
 }
-- 
2.43.0


From 2a22fb9d902cc2dba5eb22958216fc30b3598872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 23/53] fix: the allocation limit is in bytes, not elements

---
 lofty/src/util/alloc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..7d3d884 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -32,6 +32,13 @@ impl From<TryReserveError> for AllocationError {
 	}
 }
 
+/// Whether `len` elements take more bytes than [`GlobalOptions::allocation_limit()`] allows
+///
+/// [`GlobalOptions::allocation_limit()`]: crate::config::GlobalOptions::allocation_limit
+fn exceeds_limit<T>(len: usize) -> bool {
+	len.saturating_mul(size_of::<T>()) > unsafe { global_options().allocation_limit }
+}
+
 /// Provides the `fallible_repeat` method on `Vec`
 ///
 /// It is intended to be used in [`try_vec!`](crate::macros::try_vec).
@@ -50,7 +57,7 @@ impl<T> VecFallibleRepeat<T> for Vec<T> {
 			return Ok(self);
 		}
 
-		if expected_size > unsafe { global_options().allocation_limit } {
+		if exceeds_limit::<T>(expected_size) {
 			return Err(AllocationError::LimitExceeded);
 		}
 
@@ -100,7 +107,7 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
+		if exceeds_limit::<T>(capacity) {
 			return Err(AllocationError::LimitExceeded);
 		}
 
-- 
2.43.0


From 69a1457548be5fbd1c7d41d394344ab1e131d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 24/53] fix: do not take the preamble of an APE tag for an
 ID3v1 tag

---
 lofty/src/id3/mod.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index c8a071e..2a4b75d 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -8,6 +8,7 @@
 pub mod v1;
 pub mod v2;
 
+use crate::ape::constants::APE_PREAMBLE;
 use crate::config::ParsingMode;
 use crate::error::TextDecodingError;
 use crate::id3::v1::error::Id3v1ParseError;
@@ -134,7 +135,7 @@ where
 	data.seek(SeekFrom::Current(-3))?;
 
 	// No ID3v1 tag found
-	if id3v1_header != ID3V1_TAG_MARKER {
+	if id3v1_header != ID3V1_TAG_MARKER || is_ape_preamble(data)? {
 		data.seek(SeekFrom::End(0))?;
 		return Ok(ID3FindResults(header, id3v1));
 	}
@@ -155,6 +156,28 @@ where
 	Ok(ID3FindResults(header, id3v1))
 }
 
+/// Whether the "TAG" at the current position is the one in an "APETAGEX" preamble
+///
+/// That is the case for an APE tag of 131 bytes at the end of the file.
+fn is_ape_preamble<R>(data: &mut R) -> std::io::Result<bool>
+where
+	R: Read + Seek,
+{
+	const BYTES_BEFORE: usize = 3;
+
+	let pos = data.stream_position()?;
+	if pos < BYTES_BEFORE as u64 {
+		return Ok(false);
+	}
+
+	let mut preamble = [0; APE_PREAMBLE.len()];
+	data.seek(SeekFrom::Start(pos - BYTES_BEFORE as u64))?;
+	data.read_exact(&mut preamble)?;
+
+	data.seek(SeekFrom::Start(pos))?;
+	Ok(preamble == *APE_PREAMBLE)
+}
+
 #[derive(Copy, Clone, Debug)]
 pub(crate) struct FindId3v2Config {
 	pub(crate) read: bool,
-- 
2.43.0


From 308e8421ef2c4da308e1957a4c41502ec1a897d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 25/53] fix: removing an ID3v1 tag that is not there changes
 nothing

---
 lofty/src/id3/v1/write.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..d29331f 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,11 +28,13 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
-		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
-		// shrink it down.
-		let new_length = file.len()?.saturating_sub(128);
-		file.truncate(new_length)?;
+	if tag.is_empty() {
+		if header.is_some() {
+			// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
+			// shrink it down.
+			let new_length = file.len()?.saturating_sub(128);
+			file.truncate(new_length)?;
+		}
 
 		return Ok(());
 	}
-- 
2.43.0


From 2d716ec7f16d2ad42686e59ee1b96da9c4ee0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 26/53] fix: keep '|' in the e-mail of a generic popularimeter

---
 lofty/src/tag/items/popularimeter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/tag/items/popularimeter.rs b/lofty/src/tag/items/popularimeter.rs
index 4078afa..ca04ff3 100644
--- a/lofty/src/tag/items/popularimeter.rs
+++ b/lofty/src/tag/items/popularimeter.rs
@@ -412,13 +412,14 @@ impl<'a> Popularimeter<'a> {
 	}
 
 	pub(crate) fn from_str(s: &str) -> Result<Self, ()> {
-		let mut parts = s.splitn(3, '|');
-		let email = parts.next().ok_or(())?;
-		let star_rating = parts.next().ok_or(())?;
+		// The email may contain the separator, so start from the end
+		let mut parts = s.rsplitn(3, '|');
 		let play_counter = parts
 			.next()
 			.ok_or(())
 			.and_then(|p| p.parse::<u64>().map_err(|_| ()))?;
+		let star_rating = parts.next().ok_or(())?;
+		let email = parts.next().ok_or(())?;
 
 		let star_rating = match star_rating.parse().map_err(|_| ())? {
 			1 => StarRating::One,
-- 
2.43.0


From d68bdfb2ec1d422ac2d4ea7e0239e15fdd7073db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 27/53] fix: convert a Vorbis RATING without an e-mail to a
 generic popularimeter

---
 lofty/src/ogg/tag.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..d595f7e 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -544,13 +544,10 @@ impl SplitTag for VorbisComments {
 		self.items.retain_mut(|(k, v)| {
 			let key;
 			match ItemKey::from_key(TagType::VorbisComments, k) {
-				Some(k) => key = k,
-				// Special case for ratings with associated emails (RATING:foo@example.com). Ratings
-				// without emails are handled by `ItemKey::from_key`.
-				None if k.starts_with("RATING:") => {
-					let Some((_, email)) = k.split_once(':') else {
-						return ITEM_RETAINED;
-					};
+				Some(k) if k != ItemKey::Popularimeter => key = k,
+				// Special case for ratings, which may have an associated email (RATING:foo@example.com)
+				rating if rating.is_some() || k.starts_with("RATING:") => {
+					let email = k.split_once(':').map_or("", |(_, email)| email);
 
 					let Ok(value) = v.parse::<u8>() else {
 						log::warn!(
@@ -576,7 +573,7 @@ impl SplitTag for VorbisComments {
 					));
 					return ITEM_CONSUMED;
 				},
-				None => return ITEM_RETAINED,
+				_ => return ITEM_RETAINED,
 			}
 
 			let v = std::mem::take(v);
-- 
2.43.0


From d5d193a19742c60a9764fe93c548eeeeabefd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 28/53] fix: report the byte position of a character Latin-1
 cannot encode

---
 lofty/src/util/text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index fb526d3..c773a2c 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -432,7 +432,7 @@ pub(crate) fn latin1_encode(
 	s: &str,
 	lossy: bool,
 ) -> impl Iterator<Item = Result<u8, TextEncodingError>> {
-	s.chars().enumerate().map(move |(index, c)| {
+	s.char_indices().map(move |(index, c)| {
 		if (c as u32) <= 255 {
 			Ok(c as u8)
 		} else if lossy {
@@ -440,7 +440,7 @@ pub(crate) fn latin1_encode(
 		} else {
 			Err(TextEncodingError {
 				encoding: TextEncoding::Latin1,
-				valid_up_to: index, // All characters up to this point are single-byte
+				valid_up_to: index,
 			})
 		}
 	})
-- 
2.43.0


From f9f7d681c81702a4bfe51590479fba6f8c699117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 29/53] fix: drop UTF-16 byte order marks only where a string
 starts

---
 lofty/src/util/text.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index c773a2c..0387685 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -478,14 +478,16 @@ pub(crate) fn utf16_decode_bytes(
 		return Ok(String::new());
 	}
 
+	// In ID3v2, it is possible to have multiple UTF-16 strings separated by null.
+	// This also makes it possible for us to encounter multiple BOMs in a single string.
+	// We must filter them out. Anywhere else, U+FEFF is a regular character.
+	let mut string_start = true;
 	let unverified: Vec<u16> = bytes
 		.chunks_exact(2)
-		// In ID3v2, it is possible to have multiple UTF-16 strings separated by null.
-		// This also makes it possible for us to encounter multiple BOMs in a single string.
-		// We must filter them out.
-		.filter_map(|c| match c {
-			[0xFF, 0xFE] | [0xFE, 0xFF] => None,
-			_ => Some(endianness(c.try_into().unwrap())), // Infallible
+		.filter_map(|c| {
+			let is_bom = string_start && matches!(c, [0xFF, 0xFE] | [0xFE, 0xFF]);
+			string_start = c == [0, 0];
+			(!is_bom).then(|| endianness(c.try_into().unwrap())) // Infallible
 		})
 		.collect();
 
@@ -514,8 +516,8 @@ where
 	let bytes_read = raw_text.len() + terminator_len;
 	let decoded;
 	match &*raw_text {
-		[0xFF, 0xFE, ..] => decoded = utf16_decode_bytes(&raw_text[2..], u16::from_le_bytes),
-		[0xFE, 0xFF, ..] => decoded = utf16_decode_bytes(&raw_text[2..], u16::from_be_bytes),
+		[0xFF, 0xFE, ..] => decoded = utf16_decode_bytes(&raw_text, u16::from_le_bytes),
+		[0xFE, 0xFF, ..] => decoded = utf16_decode_bytes(&raw_text, u16::from_be_bytes),
 		_ => decoded = utf16_decode_bytes(&raw_text, endianness),
 	}
 
-- 
2.43.0


From 3575a4b7cf39053e46fec00b5b2beeae32987d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 30/53] verif hook: position of an encoding error

---
 lofty/src/util/verif.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lofty/src/util/verif.rs b/lofty/src/util/verif.rs
index 771615d..dd00d3c 100644
--- a/lofty/src/util/verif.rs
+++ b/lofty/src/util/verif.rs
@@ -102,3 +102,11 @@ pub fn utf16_decode_maybe_bom<R: Read>(r: &mut R, be: bool) -> Result<(String, u
 		},
 	}
 }
+
+/// `Err(valid_up_to)`
+pub fn encode_valid_up_to(enc: TextEncoding, text: &str) -> Result<Vec<u8>, usize> {
+	match enc.encode(text, false, false) {
+		Ok(v) => Ok(v),
+		Err(e) => Err(e.valid_up_to()),
+	}
+}
-- 
2.43.0


From e0022ce1ef9af3879107f4782b5b3321c17e10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 31/53] fix: grow the container when a trailing ID3v2 chunk
 grows

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..ec10dfd 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
-- 
2.43.0


From 27a8989c19e1f8d92164cf3e8c2816a0bedc4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 32/53] fix: a JUNK chunk's size does not include its header

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index ec10dfd..6a6277b 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -140,7 +140,7 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				file.write_u32::<B>((remainder as u32) - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
-- 
2.43.0


From 5e9040c497e28017c9e5a6302e8235ee97dafa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 33/53] fix: do not search for an ID3v2 chunk past the end of
 the container

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 6a6277b..c40e92d 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -234,7 +234,7 @@ where
 
 	let mut chunks = Chunks::<_, B>::new(
 		file,
-		context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE),
+		context.stream_length.saturating_sub(FIRST_CHUNK_LEN),
 	);
 	while let Some(chunk) = chunks
 		.next(parse_options.parsing_mode)
-- 
2.43.0


From 2fccd8e57c3792e703b43f4312162cbc84db29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 34/53] fix: refuse an ID3v2 chunk that makes a WAV or AIFF
 file larger than its size field allows

---
 lofty/src/id3/v2/write/chunk_file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index c40e92d..fc1cc92 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -82,9 +82,19 @@ where
 
 	let mut file_context =
 		find_existing_id3v2_tag::<_, B>(&mut file, file_len, format, write_options.parse_options)?;
-	if let Some(existing_id3_tag) = file_context.existing_id3_tag.clone() {
-		let existing_tag_len = existing_id3_tag.end - existing_id3_tag.start;
 
+	// The chunk sizes are 32-bit
+	let existing_tag_len = file_context
+		.existing_id3_tag
+		.as_ref()
+		.map_or(0, |tag| tag.end - tag.start);
+	if (file_context.stream_length - existing_tag_len) + tag_chunk_size
+		> u64::from(u32::MAX) + u64::from(IFF_CHUNK_HEADER_SIZE)
+	{
+		return Err(TagEncodingError::new(TagType::Id3v2, TooMuchDataError.into()).into());
+	}
+
+	if let Some(existing_id3_tag) = file_context.existing_id3_tag.clone() {
 		// We can just overwrite tags at the end of the file
 		if existing_id3_tag.end == file_context.stream_length
 			&& file_len == file_context.stream_length
-- 
2.43.0


From a2e080a49ccc563dcdadc469dc1be68d5da558c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 35/53] fix: an ID3v2 chunk that takes a file just past 4 GiB
 underflowed the container's size

---
 lofty/src/id3/v2/write/chunk_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index fc1cc92..ab3a69c 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -118,7 +118,7 @@ where
 
 			// Update RIFF chunk size
 			file.seek(SeekFrom::Start(4))?;
-			file.write_u32::<B>((updated_stream_len as u32) - IFF_CHUNK_HEADER_SIZE)?;
+			file.write_u32::<B>((updated_stream_len - u64::from(IFF_CHUNK_HEADER_SIZE)) as u32)?;
 
 			return Ok(());
 		}
@@ -186,7 +186,9 @@ where
 
 	// Update RIFF chunk size
 	file_bytes.seek(SeekFrom::Start(4))?;
-	file_bytes.write_u32::<B>((file_context.stream_length as u32) - IFF_CHUNK_HEADER_SIZE)?;
+	file_bytes.write_u32::<B>(
+		(file_context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE)) as u32,
+	)?;
 
 	file.rewind()?;
 	file.truncate(0)?;
-- 
2.43.0


From cbf7274c204d1236ffd457c04b012c0f8b0c7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 36/53] fix: junk before an ID3v2 tag was deleted with the tag
 when saving

---
 lofty/src/id3/v2/write/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 15cf28a..a75e1c7 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -8,7 +8,7 @@ use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
-use crate::id3::{FindId3v2Config, find_id3v2};
+use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
 use crate::util::io::FileLike;
@@ -78,12 +78,24 @@ where
 	// `find_id3v2` will seek us to the end of the tag
 	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
 	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	let ID3FindResults(existing_tag, _) =
+		find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+
+	// The tag may be preceded by junk, which isn't ours to remove
+	let mut tag_end = file.stream_position()?;
+	let mut tag_start = tag_end;
+	if let Some(header) = existing_tag {
+		tag_start -= u64::from(header.full_tag_size());
+	}
+
+	file.rewind()?;
 
 	let mut file_bytes = Vec::new();
 	file.read_to_end(&mut file_bytes)?;
 
-	file_bytes.splice(0..0, id3v2);
+	// The tag may be cut off
+	tag_end = tag_end.min(file_bytes.len() as u64);
+	file_bytes.splice(tag_start as usize..tag_end as usize, id3v2);
 
 	file.rewind()?;
 	file.truncate(0)?;
-- 
2.43.0


From 3dce40e8b87c1d0a49cf94c556db326ecee8cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 37/53] fix: saving an APE tag to a file whose APE tags
 coincide or overlap deleted the wrong bytes or panicked

---
 lofty/src/ape/tag/write.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 290bd75..c7dbbfe 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -140,6 +140,23 @@ where
 		footer_tag_location = Some(start..start + size as usize);
 	}
 
+	// With nothing in between, the tag at the beginning is the one at the end
+	if header_tag_location == footer_tag_location {
+		header_tag_location = None;
+	}
+
+	// The tags cannot overlap
+	if let Some(header) = &header_tag_location {
+		let header_bound = match &footer_tag_location {
+			Some(footer) => footer.start,
+			None => ape_position as usize,
+		};
+
+		if header.end > header_bound {
+			return Err(SizeMismatchError.into());
+		}
+	}
+
 	Ok(ApeTags {
 		read_only,
 		header: header_tag_location,
-- 
2.43.0


From 8072b57159cea5fcd1a26bc32a1149fe1402266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 38/53] fix: 64-bit chunk offsets (co64) were looked for 8
 bytes too far when saving an MP4 file

---
 lofty/src/mp4/ilst/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..9980210 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -478,7 +478,7 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		write_handle.seek(SeekFrom::Start(co64.start + co64.header_size() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
-- 
2.43.0


From d4950b1c1183d6988c5181d4af57739a7858f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 39/53] fix: base data offsets of MP4 fragments (tfhd) were not
 found and not updated

---
 lofty/src/mp4/ilst/write.rs | 14 ++++++++------
 lofty/src/mp4/write.rs      | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 9980210..091e12d 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -497,14 +497,13 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
-
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
+	log::trace!("Checking `moof` atoms for `tfhd` atoms to update");
 
 	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
+	let tfhds = writer
+		.find_contextual_atoms(*b"moof")
+		.flat_map(|moof| moof.find_all_children(*b"tfhd", true));
+	for tfhd in tfhds {
 		log::trace!("Found `tfhd` atom");
 
 		let tfhd_start = tfhd.start;
@@ -523,6 +522,9 @@ fn update_offsets(
 		let base_data_offset = (flags & 0b1) != 0;
 
 		if base_data_offset {
+			// Skip track ID (4)
+			write_handle.seek(SeekFrom::Current(4))?;
+
 			let read_offset = write_handle.read_u64::<BigEndian>()?;
 			if read_offset < ilst_offset {
 				continue;
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..0abe507 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -24,11 +24,12 @@ const META_ATOM_IDENT: AtomIdent<'_> = AtomIdent::Fourcc(*b"meta");
 const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
-		*b"moof",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
 					*b"stbl",
+	*b"moof",
+		*b"traf",
 ];
 impl ContextualAtom {
 	pub(super) fn read<R>(
@@ -157,6 +158,16 @@ impl AtomWriter {
 			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
 	}
 
+	/// Finds all instances of `fourcc` at the top level
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
+	}
+
 	pub(super) fn into_contents(self) -> Vec<u8> {
 		self.contents.into_inner().into_inner()
 	}
-- 
2.43.0


From 12cbce94f470610a9014ea528920de9519d4fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 40/53] fix: offsets were not updated when an MP4 file got its
 first udta or meta atom

---
 lofty/src/mp4/ilst/write.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 091e12d..5618cbb 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -163,15 +163,17 @@ where
 					bytes = meta_writer.into_contents();
 				}
 
-				write_handle = atom_writer.start_write();
-
 				new_udta_size = udta.len + bytes.len() as u64;
 
+				// We'll put the new `meta` atom right at the start of `udta`
+				let meta_start_pos = udta.start + udta.header_size();
+				update_offsets(&atom_writer, moov, bytes.len() as i64, meta_start_pos)?;
+
+				write_handle = atom_writer.start_write();
 				write_handle.seek(SeekFrom::Start(udta.start))?;
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
+				let meta_start_pos = meta_start_pos as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -187,7 +189,11 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		drop(write_handle);
+		update_offsets(&atom_writer, moov, bytes.len() as i64, moov_data_start)?;
+
+		let udta_pos = moov_data_start as usize;
+		write_handle = atom_writer.start_write();
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
-- 
2.43.0


From 6ab635c2ec1d1ab8538659f2b9a7f029ec8f1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 41/53] fix: lengths of extended, empty and full atoms were
 mistaken when saving an MP4 file

---
 lofty/src/mp4/ilst/write.rs | 15 +++++++++------
 lofty/src/mp4/moov.rs       |  9 ++++++---
 lofty/src/mp4/properties.rs |  3 ++-
 lofty/src/mp4/read/mod.rs   |  6 +++---
 lofty/src/mp4/write.rs      |  2 +-
 5 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 5618cbb..3251a31 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -79,7 +79,7 @@ where
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_len - moov.info.header_size(),
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +108,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.len - udta.header_size(),
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -128,14 +128,17 @@ where
 				);
 
 				// We may encounter a non-full `meta` atom
-				meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)?;
+				let mut meta_data_len = meta.len - meta.header_size();
+				if meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)? {
+					meta_data_len = meta_data_len.saturating_sub(4);
+				}
 				drop(write_handle);
 
 				// We can use the existing `udta` and `meta` atoms
 				save_to_existing(
 					&atom_writer,
 					moov,
-					(meta, udta),
+					(meta, meta_data_len, udta),
 					&mut new_udta_size,
 					ilst,
 					remove_tag,
@@ -223,7 +226,7 @@ where
 fn save_to_existing(
 	writer: &AtomWriter,
 	moov: &ContextualAtom,
-	(meta, udta): (AtomInfo, AtomInfo),
+	(meta, meta_data_len, udta): (AtomInfo, u64, AtomInfo),
 	new_udta_size: &mut u64,
 	ilst: Vec<u8>,
 	remove_tag: bool,
@@ -236,7 +239,7 @@ fn save_to_existing(
 
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		meta_data_len,
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index ed0bd9b..d611d7a 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -50,9 +50,12 @@ impl Moov {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
-						{
+						if let Some(mdia) = find_child_atom(
+							reader,
+							atom.len - atom.header_size(),
+							*b"mdia",
+							parse_options.parsing_mode,
+						)? {
 							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 049986f..41e2589 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -702,7 +702,8 @@ where
 	};
 
 	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	let minf_data_len = minf_info.len - minf_info.header_size();
+	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_data_len, parse_mode)? else {
 		return Ok(properties);
 	};
 
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index a015b02..24317c4 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -122,7 +122,7 @@ where
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the parent atom's content
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -135,7 +135,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -170,7 +170,7 @@ where
 
 	let mut i = 0;
 
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 0abe507..76642ef 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -223,7 +223,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 57a3c6a7ce2287b6e1874700687b7e6668e184c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 42/53] fix: saving an MP4 tag replaced the first atom of a
 meta atom without an ilst

---
 lofty/src/mp4/ilst/write.rs | 22 +++++++++++-----------
 lofty/src/mp4/read/mod.rs   | 12 +++---------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 3251a31..e80ef80 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -245,17 +245,7 @@ fn save_to_existing(
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -330,6 +320,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = (meta.start + meta.len) as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 24317c4..b2157f4 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -161,15 +161,13 @@ pub(super) fn atom_tree<R>(
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
 	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
@@ -179,18 +177,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
 			if fourcc == up_to {
-				found_idx = i;
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
-- 
2.43.0


From a8f6fd6f70ec25ef9e415a5d5bfd243ab3d1ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 43/53] fix: preferred padding of less than 8 bytes panicked
 when saving an MP4 file

---
 lofty/src/mp4/ilst/write.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index e80ef80..8f54c07 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -413,7 +413,10 @@ where
 		return Ok((atom_size_difference, padding_size));
 	}
 
-	let Some(preferred_padding) = write_options.preferred_padding else {
+	let Some(preferred_padding) = write_options
+		.preferred_padding
+		.filter(|padding| u64::from(padding.get()) >= ATOM_HEADER_LEN)
+	else {
 		log::trace!("Cannot avoid offset update, not padding atom");
 		return Ok((atom_size_difference, 0));
 	};
-- 
2.43.0


From 0355dfd4310b178878cf3d4661d7a2d23b51a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 44/53] fix: atoms behind a freeform atom were misread

---
 lofty/src/mp4/read/mod.rs | 18 ++++++++++--------
 lofty/src/mp4/write.rs    |  6 ++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index b2157f4..93116d4 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -146,7 +146,8 @@ where
 				break;
 			},
 			_ => {
-				skip_atom(reader, atom.extended, atom.len)?;
+				// NOTE: Reading a freeform atom already skips part of its contents
+				reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 				len = len.saturating_sub(atom.len);
 			},
 		}
@@ -173,16 +174,17 @@ where
 			break;
 		};
 
-		skip_atom(reader, atom.extended, atom.len)?;
+		// NOTE: Reading a freeform atom already skips part of its contents
+		reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 		len = len.saturating_sub(atom.len);
 
-		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			if fourcc == up_to {
-				found_idx = Some(buf.len());
-			}
-
-			buf.push(atom);
+		if let AtomIdent::Fourcc(ref fourcc) = atom.ident
+			&& fourcc == up_to
+		{
+			found_idx = Some(buf.len());
 		}
+
+		buf.push(atom);
 	}
 
 	Ok((found_idx, buf))
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 76642ef..a992d80 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -2,7 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::FileEncodingError;
 use crate::mp4::atom_info::{AtomIdent, AtomInfo, IDENTIFIER_LEN};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
-use crate::mp4::read::{meta_is_full, skip_atom};
+use crate::mp4::read::meta_is_full;
 use crate::util::io::FileLike;
 
 use std::cell::{RefCell, RefMut};
@@ -54,7 +54,9 @@ impl ContextualAtom {
 				*reader_len = reader_len.saturating_sub(info.len);
 
 				// We don't care about the atom's contents
-				skip_atom(reader, info.extended, info.len)?;
+				//
+				// NOTE: Reading a freeform atom already skips part of its contents
+				reader.seek(SeekFrom::Start(info.start + info.len))?;
 				return Ok(Some(ContextualAtom {
 					info,
 					children: Vec::new(),
-- 
2.43.0


From 77ecc45f2c4017e9fd470e08a50731ed217c615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 45/53] fix: MP4 offsets that do not fit after an update were
 written wrapped

---
 lofty/src/mp4/ilst/write.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 8f54c07..f56e817 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -477,12 +477,11 @@ fn update_offsets(
 				continue;
 			}
 			write_handle.seek(SeekFrom::Current(-4))?;
-			write_handle.write_u32::<BigEndian>((i64::from(read_offset) + difference) as u32)?;
+			let new_offset = u32::try_from(i64::from(read_offset) + difference)
+				.map_err(|_| TooMuchDataError)?;
+			write_handle.write_u32::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				(i64::from(read_offset) + difference) as u32
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -500,12 +499,12 @@ fn update_offsets(
 			}
 
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			let new_offset = read_offset
+				.checked_add_signed(difference)
+				.ok_or(TooMuchDataError)?;
+			write_handle.write_u64::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
@@ -543,12 +542,12 @@ fn update_offsets(
 			}
 
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			let new_offset = read_offset
+				.checked_add_signed(difference)
+				.ok_or(TooMuchDataError)?;
+			write_handle.write_u64::<BigEndian>(new_offset)?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			log::trace!("Updated offset from {read_offset} to {new_offset}");
 		}
 	}
 
-- 
2.43.0


From ccf698f14cf0d091a28b60ea0ccfc80f404d210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 46/53] fix: count every frame of a Monkey's Audio file whose
 last frame has at most one block

---
 lofty/src/ape/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/properties.rs b/lofty/src/ape/properties.rs
index 4435848..f0382a5 100644
--- a/lofty/src/ape/properties.rs
+++ b/lofty/src/ape/properties.rs
@@ -252,7 +252,7 @@ fn get_duration_bitrate(
 ) {
 	let mut total_samples = u64::from(final_frame_blocks);
 
-	if total_samples > 1 {
+	if total_frames > 1 {
 		total_samples += u64::from(blocks_per_frame) * u64::from(total_frames - 1)
 	}
 
-- 
2.43.0


From 09793560a41696349faf36276723e316d8cef057 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 47/53] fix: pictures shorter than eight bytes panicked when
 their type was guessed

---
 lofty/src/picture/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..e74ff14 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -955,8 +955,8 @@ impl Picture {
 	}
 
 	pub(crate) fn mimetype_from_bin(bytes: &[u8]) -> Result<MimeType, UnknownImageFormatError> {
-		match bytes[..8] {
-			[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A] => Ok(MimeType::Png),
+		match *bytes {
+			[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(MimeType::Png),
 			[0xFF, 0xD8, ..] => Ok(MimeType::Jpeg),
 			[b'G', b'I', b'F', 0x38, 0x37 | 0x39, b'a', ..] => Ok(MimeType::Gif),
 			[b'B', b'M', ..] => Ok(MimeType::Bmp),
-- 
2.43.0


From a30a953c32a6802a1a3d6f65cbdd87bc93757720 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 48/53] fix: JPEG sections and component counts could overflow

---
 lofty/src/picture/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index e74ff14..3674a4c 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -471,12 +471,16 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 0597cdff0e4f12d680c3c93e24cbcecbff0a96ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 49/53] fix: descriptions of APE cover art were written as
 UTF-8 and read as Latin-1

---
 lofty/src/picture/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 3674a4c..31e2385 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -925,7 +925,7 @@ impl Picture {
 		let mut pos = 0;
 
 		let mut description = None;
-		let mut desc_text = String::new();
+		let mut desc_bytes = Vec::new();
 
 		while let Ok(ch) = reader.read_u8() {
 			pos += 1;
@@ -934,10 +934,13 @@ impl Picture {
 				break;
 			}
 
-			desc_text.push(char::from(ch));
+			desc_bytes.push(ch);
 		}
 
-		if !desc_text.is_empty() {
+		if !desc_bytes.is_empty() {
+			// Descriptions are UTF-8, but other writers may have used Latin-1
+			let desc_text = String::from_utf8(desc_bytes)
+				.unwrap_or_else(|e| e.as_bytes().iter().copied().map(char::from).collect());
 			description = Some(Cow::from(desc_text));
 		}
 
-- 
2.43.0


From 4836fa743ee1ec317c15bbd795bd2879c66834db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 50/53] fix: greyscale PNGs with alpha have two channels, not
 four

---
 lofty/src/picture/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 31e2385..b88e79b 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -370,7 +370,8 @@ impl PictureInformation {
 
 		match color_type {
 			2 => color_depth *= 3,
-			4 | 6 => color_depth *= 4,
+			4 => color_depth *= 2,
+			6 => color_depth *= 4,
 			_ => {},
 		}
 
-- 
2.43.0


From db8d5cc869d9d9f8be437ffa7d156ed7e46b26a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 51/53] fix: saving Vorbis comments to an Ogg file dropped
 everything from the first unreadable page on

---
 lofty/src/ogg/tag/write.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..ba2bc0a 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -121,8 +121,11 @@ where
 
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
+	let mut pages_end = 0;
 	let mut idx = 0;
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
+		pages_end = pages_reader.position() as usize;
+
 		let header = page.header_mut();
 		header.sequence_number = pages_written + idx;
 		page.gen_crc();
@@ -131,6 +134,9 @@ where
 		idx += 1;
 	}
 
+	// Whatever follows the last readable page is left as it was
+	file.write_all(&remaining_file_content[pages_end..])?;
+
 	Ok(())
 }
 
-- 
2.43.0


From 40d12a9af2b08f6e09957b34b81edec28d84fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 52/53] fix: saving Vorbis comments to an Ogg file renumbered
 the pages of its other logical streams

---
 lofty/src/ogg/tag/write.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index ba2bc0a..90c1d67 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -126,12 +126,16 @@ where
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
 		pages_end = pages_reader.position() as usize;
 
+		// Other logical streams have their own sequence numbers
 		let header = page.header_mut();
-		header.sequence_number = pages_written + idx;
-		page.gen_crc();
-		file.write_all(&page.as_bytes())?;
+		if header.stream_serial == stream_serial {
+			header.sequence_number = pages_written + idx;
+			page.gen_crc();
+
+			idx += 1;
+		}
 
-		idx += 1;
+		file.write_all(&page.as_bytes())?;
 	}
 
 	// Whatever follows the last readable page is left as it was
-- 
2.43.0


From 8e9b56edd4177cbcbf45658c7dcf764e9d5f00c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 53/53] fix: saving Vorbis comments to an Ogg file dropped the
 audio that shares a page with its headers

---
 lofty/src/ogg/tag/write.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index 90c1d67..2452188 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -71,6 +71,11 @@ where
 	let mut remaining_file_content = Vec::new();
 	file.read_to_end(&mut remaining_file_content)?;
 
+	// The header packets have to end their page, or else the rest of it could not be kept
+	if !remaining_file_content.is_empty() && !remaining_file_content.starts_with(b"OggS") {
+		return Err(FileParseError::message(None, "header packets share a page with audio").into());
+	}
+
 	let comment_packet = packets
 		.get(1)
 		.ok_or_else(|| FileParseError::message(None, "missing comment packet"))?;
-- 
2.43.0

