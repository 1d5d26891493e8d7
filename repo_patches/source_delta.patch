From 173cc9584c9b622d8d27ce5cd6b6a2cd6a54a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 01/69] Verification hook: make the stream trait nameable under
 cfg(libopenraw_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 875628d..145775f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -102,6 +102,14 @@ pub use rawfile::rawfile_from_file;
 pub use rawfile::rawfile_from_io;
 pub use rawfile::rawfile_from_memory;
 
+/// Access for the verification harness. Only with `--cfg libopenraw_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(libopenraw_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::rawfile::ReadAndSeek;
+}
+
 /// Implement a `context` to display a message on error.
 pub trait Context {
     fn context(self, message: &str) -> Self;
-- 
2.43.0


From 18211e164918fd4ebea81ad15366773e9ed28c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 02/69] fix: LJPEG: difference category 16 has no additional
 bits

---
 src/decompress/ljpeg.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..046d93c 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -446,11 +446,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     self.mcu_row[self.cur_row][0][cur_comp] =
                         (d + self.mcu_row[self.prev_row][0][cur_comp] as i32) as u16;
                 } else {
@@ -470,11 +466,7 @@ impl LJpeg {
                     if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                         // Section F.2.2.1: decode the difference
                         let s = self.huff_decode(dctbl, reader)? as u8;
-                        let d = if s != 0 {
-                            extend(reader.get_bits(s)?, s)
-                        } else {
-                            0
-                        };
+                        let d = read_diff(reader, s)?;
                         let predictor = self.quick_predict(
                             col as i32,
                             cur_comp as i16,
@@ -566,11 +558,7 @@ impl LJpeg {
             if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                 // Section F.2.2.1: decode the difference
                 let s = self.huff_decode(dctbl, reader)? as u8;
-                let d = if s != 0 {
-                    extend(reader.get_bits(s)?, s)
-                } else {
-                    0
-                };
+                let d = read_diff(reader, s)?;
 
                 // Add the predictor to the difference.
                 let cur_row_buf = &mut self.mcu_row[self.cur_row];
@@ -591,11 +579,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     // Add the predictor to the difference.
                     let cur_row_buf = &mut self.mcu_row[self.cur_row];
                     cur_row_buf[col as usize][cur_comp as usize] =
@@ -1109,6 +1093,17 @@ impl DecompressInfo {
     }
 }
 
+#[inline]
+/// H.1.2.2: get the difference for the category `s`. The category 16 is
+/// for the difference 32768 and has no additional bits.
+fn read_diff(reader: &mut LJpegBitReader, s: u8) -> Result<i32> {
+    match s {
+        0 => Ok(0),
+        16 => Ok(32768),
+        _ => Ok(extend(reader.get_bits(s)?, s)),
+    }
+}
+
 #[inline]
 /// F.2.2.1 Code and table for Figure F.12: extend sign bit
 fn extend(x: u16, s: u8) -> i32 {
-- 
2.43.0


From 3d494221e5d4cd229b26313629c0b842c2d62d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 03/69] fix: AspectRatio::crop lost a pixel to floating point
 rounding

---
 src/geometry.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a15f2e5..81700ef 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -84,18 +84,18 @@ pub struct AspectRatio(pub u32, pub u32);
 impl AspectRatio {
     /// Crop the size to the aspect ratio.
     pub fn crop(&self, from: Size) -> Size {
-        let ratio = self.0 as f64 / self.1 as f64;
-        if (from.width as f64 / from.height as f64) > ratio {
-            let new_width = from.height as f64 * ratio;
+        // Use integers: floating point could be rounded down to one pixel less.
+        let (ratio_w, ratio_h) = (self.0 as u64, self.1 as u64);
+        let (width, height) = (from.width as u64, from.height as u64);
+        if width * ratio_h > height * ratio_w {
             Size {
-                width: new_width as u32,
+                width: (height * ratio_w / ratio_h) as u32,
                 height: from.height,
             }
         } else {
-            let new_height = from.width as f64 / ratio;
             Size {
                 width: from.width,
-                height: new_height as u32,
+                height: (width * ratio_h).checked_div(ratio_w).unwrap_or(0) as u32,
             }
         }
     }
-- 
2.43.0


From 1b5408d52fb611787452a0e4f796d9755f408f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 04/69] fix: buffers and thumbnails could hold uninitialised
 memory or be cut by a short or failed read

---
 src/canon/cr2.rs |  2 +-
 src/canon/cr3.rs |  2 +-
 src/container.rs | 67 ++++++++++++++++++++++++------------------------
 src/fujifilm.rs  |  6 ++---
 src/minolta.rs   |  9 ++++---
 src/panasonic.rs |  6 ++---
 src/sony.rs      |  2 +-
 src/tiff.rs      | 14 +++++-----
 8 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..317ac13 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -87,7 +87,7 @@ impl Cr2File {
         slices: &[u32],
         skip_decompress: bool,
     ) -> Result<RawImage> {
-        let data = self.container()?.load_buffer8(offset, byte_len);
+        let data = self.container()?.load_buffer8(offset, byte_len)?;
         if (data.len() as u64) != byte_len {
             log::warn!("Size mismatch for data. Moving on");
         }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..3f4a414 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -195,7 +195,7 @@ impl RawFileImpl for Cr3File {
             let height = raw_track.image_height;
             let byte_len = raw_track.len;
             let offset = raw_track.offset;
-            let data = container.load_buffer8(offset, byte_len);
+            let data = container.load_buffer8(offset, byte_len)?;
 
             let mut rawdata = RawImage::with_data8(
                 width as u32,
diff --git a/src/container.rs b/src/container.rs
index 31cee69..a77defe 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -29,8 +29,8 @@ use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, ReadBytesExt};
 use crate::io::View;
 use crate::metadata;
 use crate::thumbnail::{Data, ThumbDesc, Thumbnail};
-use crate::Result;
 use crate::Type as RawType;
+use crate::{Error, Result};
 
 /// Endian of the container
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -113,7 +113,11 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
-                if offset.offset + len > view.len() {
+                if offset.offset > view.len() {
+                    log::error!("Thumbnail offset {:?} past EOF", offset);
+                    return Err(Error::FormatError);
+                }
+                if len > view.len() - offset.offset {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
                     // It seems to work. Worst case scenario it still doesn't.
@@ -124,7 +128,7 @@ pub trait RawContainer {
                     );
                     len = view.len() - offset.offset;
                 }
-                let mut data = uninit_vec!(len as usize);
+                let mut data = vec![0_u8; len as usize];
                 view.seek(SeekFrom::Start(offset.offset))?;
                 view.read_exact(data.as_mut_slice())?;
                 data
@@ -142,58 +146,53 @@ pub trait RawContainer {
     fn borrow_view_mut(&self) -> RefMut<'_, View>;
 
     /// Load an 8bit buffer at `offset` and of `len` bytes.
-    fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
+    /// The buffer is shorter if the end of file is reached.
+    fn load_buffer8(&self, offset: u64, len: u64) -> Result<Vec<u8>> {
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
-
-        data
+        load_buffer(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
-    fn load_buffer16(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<NativeEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Little Endian
-    fn load_buffer16_le(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_le(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<LittleEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Big Endian
-    fn load_buffer16_be(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_be(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<BigEndian>(&mut view, offset, len)
     }
 }
 
+/// Load up to `len` bytes at `offset`. Reaching the end of file isn't
+/// an error, the buffer is just shorter.
+fn load_buffer(view: &mut View, offset: u64, len: u64) -> Result<Vec<u8>> {
+    let available = view.len().saturating_sub(offset);
+    if available < len {
+        log::debug!("Short read {} < {}", available, len);
+    }
+    let mut data = vec![0_u8; std::cmp::min(len, available) as usize];
+    if !data.is_empty() {
+        view.seek(SeekFrom::Start(offset))?;
+        view.read_exact(data.as_mut_slice())?;
+    }
+    Ok(data)
+}
+
 /// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
-fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
+fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Result<Vec<u16>>
 where
     E: ByteOrder,
 {
-    let mut data = uninit_vec!((len / 2) as usize);
-
-    if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
-    }
-
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
-    }
-
-    data
+    let data = load_buffer(view, offset, len)?;
+    let mut data16 = vec![0_u16; data.len() / 2];
+    E::read_u16_into(&data[..data16.len() * 2], &mut data16);
+    Ok(data16)
 }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..f4a55ee 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -236,7 +236,7 @@ impl RawFileImpl for RafFile {
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)?;
                             let len =
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)?;
-                            let bytes = exif.load_buffer8(offset as u64, len as u64);
+                            let bytes = exif.load_buffer8(offset as u64, len as u64).ok()?;
                             let mut byte_slice = bytes.as_slice();
                             let mut decoder = jpeg_decoder::Decoder::new(&mut byte_slice);
                             decoder
@@ -456,7 +456,7 @@ impl RawFileImpl for RafFile {
                 probe!(self.probe, "raf.compressed", compressed);
                 let mut rawdata = if !compressed {
                     if cfa_len == (2 * raw_size.width as u64 * raw_size.height as u64) {
-                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len);
+                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len)?;
                         RawImage::with_data16(
                             raw_size.width,
                             raw_size.height,
@@ -509,7 +509,7 @@ impl RawFileImpl for RafFile {
                         )
                     }
                 } else {
-                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len);
+                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len)?;
                     // The decompressor needs some extra bytes. We add 16.
                     raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..0f9c00f 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -198,6 +198,7 @@ impl RawFileImpl for MrwFile {
                     preview
                         .offset()
                         .map(|offset| ifd.load_buffer8(offset as u64, preview.count as u64))
+                        .transpose()?
                 } else {
                     // Most file have offset and byte length in two tags.
                     let offset = makernote
@@ -207,12 +208,12 @@ impl RawFileImpl for MrwFile {
                         .uint_value(exif::MNOTE_MINOLTA_THUMBNAIL_LENGTH)
                         .unwrap_or(0);
                     if offset != 0 && length != 0 {
-                        Some(ifd.load_buffer8(offset as u64, length as u64))
+                        Some(ifd.load_buffer8(offset as u64, length as u64)?)
                     } else {
                         None
                     }
                 };
-                if let Some(mut buffer) = buffer {
+                if let Some(mut buffer) = buffer.filter(|buffer| !buffer.is_empty()) {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
                     buffer[0] = 0xff;
@@ -259,7 +260,7 @@ impl RawFileImpl for MrwFile {
             } as u64;
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
-                let raw = container.load_buffer8(cfa_offset, cfa_len);
+                let raw = container.load_buffer8(cfa_offset, cfa_len)?;
                 if skip_decompress {
                     RawImage::with_data8(
                         rawinfo.x,
@@ -286,7 +287,7 @@ impl RawFileImpl for MrwFile {
                     )
                 }
             } else {
-                let raw = container.load_buffer16_be(cfa_offset, cfa_len);
+                let raw = container.load_buffer16_be(cfa_offset, cfa_len)?;
                 RawImage::with_data16(
                     rawinfo.x,
                     rawinfo.y,
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..8815f6b 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1007,7 +1007,7 @@ impl RawFileImpl for Rw2File {
             let (compression, mut raw_data) = match data_type {
                 DataType::CompressedRaw => {
                     let pattern = mosaic_pattern.unwrap_or_default();
-                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len);
+                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len)?;
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
                         decompress::panasonic_raw1(&buffer).ok().map(|raw| {
                             (
@@ -1037,7 +1037,7 @@ impl RawFileImpl for Rw2File {
                 DataType::Raw => {
                     let raw = if packed {
                         log::debug!("Panasonic: packed data");
-                        let raw = self.container()?.load_buffer8(offset.offset, offset.len);
+                        let raw = self.container()?.load_buffer8(offset.offset, offset.len)?;
                         let len = raw.len();
                         let mut buf = std::io::Cursor::new(raw);
                         crate::decompress::unpack_from_reader(
@@ -1057,7 +1057,7 @@ impl RawFileImpl for Rw2File {
                         // significant bits are discarded.
                         let mut buffer = self
                             .container()?
-                            .load_buffer16_le(offset.offset, offset.len);
+                            .load_buffer16_le(offset.offset, offset.len)?;
                         buffer.iter_mut().for_each(|v| *v >>= 4);
                         buffer
                     };
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..5f37acc 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1071,7 +1071,7 @@ impl ArwFile {
         let width = prd.x; //3881;
         let height = prd.y; //2608;
         let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
 
         let mut rawimage = RawImage::with_data8(
             width,
diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..5a8d886 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -354,16 +354,16 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                     // If we exceed file boundaries, return empty buffers
                     if *offset as u64 > container.borrow_view_mut().len() {
                         log::error!("TIFF: trying to load tile past EOF");
-                        vec![]
+                        Ok(vec![])
                     } else if *byte_len as u64 + *offset as u64 > container.borrow_view_mut().len()
                     {
                         log::error!("TIFF: byte length for tile exceed file size");
-                        vec![]
+                        Ok(vec![])
                     } else {
                         container.load_buffer8(*offset as u64, *byte_len as u64)
                     }
                 })
-                .collect();
+                .collect::<Result<Vec<_>>>()?;
             RawImage::new_tiled(
                 x,
                 y,
@@ -374,7 +374,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
+            let data = container.load_buffer8(offset as u64, byte_len as u64)?;
             RawImage::with_data8(
                 x,
                 y,
@@ -386,9 +386,9 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         }
     } else if bpc == 16 {
         let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
+            container.load_buffer16_be(offset as u64, byte_len as u64)?
         } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
+            container.load_buffer16_le(offset as u64, byte_len as u64)?
         };
         RawImage::with_data16(
             x,
@@ -417,7 +417,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
         // XXX is this efficient?
         RawImage::with_data16(
             x,
-- 
2.43.0


From 63730ad5db1ac4d71c8b608a26b264a9045a109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 05/69] fix: LJPEG: truncated or inconsistent streams panicked
 or exhausted memory; reused decoder

---
 src/decompress/bit_reader.rs    |  40 +++++++++---
 src/decompress/ljpeg.rs         | 104 ++++++++++++++++++++------------
 src/decompress/sliced_buffer.rs |   5 +-
 3 files changed, 101 insertions(+), 48 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..aa489dc 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -146,6 +146,8 @@ pub(crate) struct LJpegBitReader<'a> {
     pos: usize,
     bits_left: u8,
     bits: u32,
+    /// Number of bits made up at the end of the buffer.
+    stuffed: u32,
 }
 
 impl BitReader for LJpegBitReader<'_> {
@@ -169,21 +171,30 @@ impl<'a> LJpegBitReader<'a> {
             pos: 0,
             bits_left: 0,
             bits: 0,
+            stuffed: 0,
         }
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = *self.buffer.get(self.pos).ok_or(Error::UnexpectedEOF)?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let b = self
+            .buffer
+            .get(self.pos..self.pos + 2)
+            .ok_or(Error::UnexpectedEOF)?;
         self.pos += 2;
-        b
+        Ok(BigEndian::read_u16(b))
+    }
+
+    /// Whether more bits than the buffer has have been consumed.
+    pub(crate) fn is_exhausted(&self) -> bool {
+        self.stuffed > self.bits_left as u32
     }
 
     /// Skip `seek` bytes.
@@ -201,10 +212,23 @@ impl<'a> LJpegBitReader<'a> {
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
+            let mut c = match self.read_u8() {
+                Ok(c) => c,
+                Err(_) => {
+                    // End of the buffer. The last bits might still be
+                    // enough for the last code.
+                    if self.is_exhausted() {
+                        return Err(Error::UnexpectedEOF);
+                    }
+                    self.stuffed += 8;
+                    self.bits <<= 8;
+                    self.bits_left += 8;
+                    continue;
+                }
+            };
             // If it's 0xFF, check and discard stuffed zero byte
             if c == 0xff {
-                let c2 = self.read_u8();
+                let c2 = self.read_u8().unwrap_or(0);
                 if c2 != 0 {
                     // Oops, it's actually a marker indicating end of
                     // compressed data.  Better put it back for use later.
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 046d93c..ce2bbb1 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -154,6 +154,11 @@ impl LJpeg {
 
     /// Set the slices for Canon CR2.
     pub fn set_slices(&mut self, slices: &[u32]) {
+        // There can't be more slices than pixels in the widest JPEG row.
+        if slices.len() < 3 || slices[0] > 4 * u16::MAX as u32 {
+            log::error!("LJPEG: invalid slices {:?}", slices);
+            return;
+        }
         let mut v = Vec::new();
         let n = slices[0] as usize;
         v.resize(n + 1, slices[1]);
@@ -174,7 +179,9 @@ impl LJpeg {
 
         let mut bit_reader = LJpegBitReader::new(buffer);
         self.read_file_header(&mut dc_info, &mut bit_reader)?;
-        self.read_scan_header(&mut dc_info, &mut bit_reader)?;
+        if !self.read_scan_header(&mut dc_info, &mut bit_reader)? {
+            return Err(Error::JpegFormat("LJPEG: no scan found".into()));
+        }
 
         if dc_info.image_width == 0 || dc_info.image_height == 0 {
             return Err(Error::JpegFormat(format!(
@@ -188,6 +195,14 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        // A sample takes at least one bit.
+        if dc_info.image_width as u64 * dc_info.image_height as u64 * dc_info.num_components as u64
+            > buffer.len() as u64 * 8
+        {
+            return Err(Error::JpegFormat(
+                "LJPEG: not enough data for the image size".into(),
+            ));
+        }
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
@@ -215,7 +230,11 @@ impl LJpeg {
             // Some CR2 files have 4 components so we need to double the height.
             // Includes 6DMkII.
             // The 7D has proper width and height. We check against the slices.
-            let slice_width: u32 = self.slices.as_ref().map(|s| s.iter().sum()).unwrap_or(0);
+            let slice_width: u32 = self
+                .slices
+                .as_ref()
+                .and_then(|s| s.iter().try_fold(0_u32, |sum, v| sum.checked_add(*v)))
+                .unwrap_or(0);
             if self.is_raw && dc_info.num_components == 4 {
                 if slice_width != 0
                     && (dc_info.image_width as u32 * dc_info.num_components as u32) == slice_width
@@ -241,6 +260,9 @@ impl LJpeg {
         self.decoder_struct_init(&mut dc_info)?;
         self.huff_decoder_init(&mut dc_info, &mut bit_reader)?;
         self.decode_image(&mut dc_info, &mut bit_reader, &mut output)?;
+        if bit_reader.is_exhausted() {
+            return Err(Error::JpegFormat("LJPEG: unexpected end of data".into()));
+        }
 
         Ok(Tile {
             height,
@@ -281,8 +303,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -350,10 +372,9 @@ impl LJpeg {
         // XXX Turn this into a single buffer per row.
         // XXX Currently this statically uses 4 components even if
         // XXX our use case is 2.
-        self.mcu_row.push(vec![]);
-        self.mcu_row[0].resize(dc.image_width as usize, vec![0; 4]);
-        self.mcu_row.push(vec![]);
-        self.mcu_row[1].resize(dc.image_width as usize, vec![0; 4]);
+        self.mcu_row = vec![vec![vec![0; 4]; dc.image_width as usize]; 2];
+        self.cur_row = 0;
+        self.prev_row = 1;
 
         Ok(())
     }
@@ -507,18 +528,18 @@ impl LJpeg {
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -622,7 +643,12 @@ impl LJpeg {
                 // log::warn!("Corrupt JPEG data: bad huffman code")
                 rv = 0;
             } else {
-                rv = htbl.huffval[((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize]
+                let index = (htbl.valptr[l] as i32) + (code - htbl.mincode[l]);
+                rv = usize::try_from(index)
+                    .ok()
+                    .and_then(|index| htbl.huffval.get(index))
+                    .copied()
+                    .ok_or_else(|| Error::JpegFormat("LJPEG: bad Huffman code".into()))?
                     as u16;
             }
         }
@@ -920,11 +946,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -951,11 +977,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -963,9 +989,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -978,7 +1004,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -987,7 +1013,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -995,7 +1021,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1010,14 +1036,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1028,16 +1054,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1047,12 +1073,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1061,8 +1087,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1084,9 +1110,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index c4cf5cb..4e15560 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -138,7 +138,10 @@ impl<T: Copy + Default> SlicedBuffer<T> {
             self.pos = new_pos;
         } else {
             iter.for_each(|d| {
-                self.buffer[self.pos] = d;
+                // Slices might not match the image size.
+                if let Some(v) = self.buffer.get_mut(self.pos) {
+                    *v = d;
+                }
                 self.pos = self.advance();
             })
         }
-- 
2.43.0


From 8ad85d2d12663db0fd98fe76bd0f574725aa6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 06/69] fix: DNG tiles: uninitialised memory, misplaced tiles
 after a broken one, panics on short tiles

---
 src/decompress/tiled.rs | 72 +++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..1376171 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,7 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
 
@@ -38,36 +38,46 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0_u16; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
 
+        // All the tiles have the same size, including the missing ones.
+        let (tile_width, tile_height) = tiles
+            .iter()
+            .flatten()
+            .map(|tile| (tile.u_width as usize, tile.u_height as usize))
+            .next()
+            .unwrap_or((0, 0));
+        if tile_width == 0 || tile_height == 0 {
+            return buffer;
+        }
+
         let buf_slice = buffer.as_mut_slice();
         for tile in tiles {
-            if tile.is_none() {
-                log::error!("tile is none");
-                continue;
-            }
-            let tile = tile.as_ref().unwrap();
-            // Edge tiles might be wider than necessary, ie width
-            // isn't a multiple of the image width.
-            let row_len = std::cmp::min(tile.u_width as usize, width - first_col);
-            for r in 0..tile.u_height as usize {
-                if first_row + r >= height {
-                    // We are past the last row. This is because the
-                    // tiles aren't necessarily a multiple of the
-                    // image size. Mostly in DNG converted.
-                    break;
+            if let Some(tile) = tile {
+                // Edge tiles might be wider than necessary, ie width
+                // isn't a multiple of the image width.
+                let row_len = std::cmp::min(tile.u_width as usize, width - first_col);
+                for r in 0..tile.u_height as usize {
+                    if first_row + r >= height {
+                        // We are past the last row. This is because the
+                        // tiles aren't necessarily a multiple of the
+                        // image size. Mostly in DNG converted.
+                        break;
+                    }
+                    let pos = (first_row + r) * width + first_col;
+                    let tile_pos = r * tile.u_width as usize;
+                    buf_slice[pos..][..row_len].copy_from_slice(&tile.buf[tile_pos..][..row_len]);
                 }
-                let pos = (first_row + r) * width + first_col;
-                let tile_pos = r * tile.u_width as usize;
-                buf_slice[pos..][..row_len].copy_from_slice(&tile.buf[tile_pos..][..row_len]);
+            } else {
+                log::error!("tile is none");
             }
-            first_col += tile.u_width as usize;
+            first_col += tile_width;
             if first_col >= width {
                 first_col = 0;
-                first_row += tile.u_height as usize;
+                first_row += tile_height;
                 if first_row >= height {
                     break;
                 }
@@ -86,6 +96,19 @@ impl TiledLJpeg {
         if let Some(tiles) = rawdata.tile_data() {
             probe!(probe, "ljpeg.tiled", "true");
             let tile_size = rawdata.tile_size();
+            if let Some((width, height)) = tile_size {
+                // Enough tiles are needed to cover the image.
+                let count =
+                    |len: u32, tile_len: u32| (len as u64 + tile_len as u64 - 1) / tile_len as u64;
+                if width == 0
+                    || height == 0
+                    || count(rawdata.width(), width) * count(rawdata.height(), height)
+                        > tiles.len() as u64
+                {
+                    log::error!("Not enough tiles of size {width}x{height} for the image");
+                    return Err(Error::FormatError);
+                }
+            }
             let dec_tiles: Vec<Option<Tile>> = tiles
                 .par_iter()
                 .map(|tile| {
@@ -109,8 +132,15 @@ impl TiledLJpeg {
                         }
                         tile
                     })
+                    .filter(|tile| {
+                        tile.buf.len() as u64 >= tile.u_width as u64 * tile.u_height as u64
+                    })
                 })
                 .collect();
+            if dec_tiles.iter().all(|tile| tile.is_none()) {
+                log::error!("No tile could be decompressed");
+                return Err(Error::FormatError);
+            }
 
             let data = Self::combine_tiles(
                 rawdata.width() as usize,
-- 
2.43.0


From 36f2525f1d54234f14fe648a43f2041bae73c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 07/69] fix: rendering panicked on small images, short buffers,
 invalid levels, tables and matrices

---
 src/bitmap.rs          |  8 +++----
 src/rawimage.rs        | 54 ++++++++++++++++++++----------------------
 src/render/demosaic.rs |  7 +++++-
 src/utils.rs           |  4 ++--
 4 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..b752ada 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,13 +66,13 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let cc = self.cc as usize;
+        let pos = (y as usize * self.width as usize + x as usize) * cc;
 
-        Some(pixel.to_vec())
+        self.data.get(pos..pos + cc).map(|pixel| pixel.to_vec())
     }
 
     #[inline]
diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..6d294c3 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -275,7 +275,13 @@ impl RawImage {
     }
 
     /// Set the white balance.
+    ///
+    /// Does nothing if there are less than 3 values.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
+        if as_shot.len() < 3 {
+            log::error!("Invalid as shot neutral {:?}", as_shot);
+            return;
+        }
         let mut as_shot_neutral = [0_f64; 4];
         as_shot_neutral[0] = as_shot[0];
         as_shot_neutral[1] = as_shot[1];
@@ -427,29 +433,21 @@ impl RawImage {
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
-        let range = (white - black) as f64;
-        let table = if self
+        let range = white.saturating_sub(black) as f64;
+        let table = self
             .linearization_table
             .as_ref()
-            .map(|t| t.len() == (1 << self.bpc()))
-            .unwrap_or(false)
-        {
-            self.linearization_table.as_ref()
-        } else {
-            None
-        };
+            .filter(|t| Some(t.len()) == 1_usize.checked_shl(self.bpc() as u32));
         log::debug!("pre-lin at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
         let data = buffer
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                table
+                    .and_then(|t| t.get(*v as usize).or_else(|| t.last()))
+                    .map(|v| *v as f64)
+                    .unwrap_or_else(|| if *v < black { 0.0 } else { (*v - black) as f64 })
+                    / range
             })
             .collect();
 
@@ -496,15 +494,16 @@ impl RawImage {
         if target != ColourSpace::SRgb {
             return Err(Error::Unimplemented);
         }
-        let width = buffer.width;
-        let height = buffer.height;
+        let width = buffer.width as usize;
+        let height = buffer.height as usize;
         // XXX get the D65 illuminant matrix. On DNG it is not necessarily 1.
         let mut cm = None;
         for i in 1..=2 {
             cm = self
                 .colour_matrix(i)
-                .filter(|m| m.illuminant == exif::LightsourceValue::D65)
-                .map(|m| Matrix3::from_row_slice(&m.matrix));
+                .filter(|m| m.illuminant == exif::LightsourceValue::D65 && m.matrix.len() == 9)
+                .map(|m| Matrix3::from_row_slice(&m.matrix))
+                .filter(|m| m.is_invertible());
             if cm.is_some() {
                 break;
             }
@@ -518,7 +517,7 @@ impl RawImage {
                 let pos = row * width * 3;
                 let mut col = 0;
                 while col < width * 3 {
-                    let c = (pos + col) as usize;
+                    let c = pos + col;
                     let abc = Vector3::from_row_iterator(buffer.data[c..c + 3].iter().copied());
                     let rgb = cam_rgb * abc;
                     col += 3;
@@ -546,13 +545,12 @@ impl RawImage {
         let x = self.width();
         let y = self.height();
         let mut pattern = self.mosaic_pattern().clone();
-        let data16 = ImageBuffer::with_data(
-            self.data16().ok_or(Error::InvalidFormat)?.to_vec(),
-            x,
-            y,
-            16,
-            1,
-        );
+        // The buffer must hold all the pixels. There might be some padding.
+        let data16 = self
+            .data16()
+            .and_then(|data| data.get(..(x as usize).checked_mul(y as usize)?))
+            .ok_or(Error::InvalidFormat)?;
+        let data16 = ImageBuffer::with_data(data16.to_vec(), x, y, 16, 1);
         log::debug!("Linearizing data");
         let mut data = self.linearize(data16);
         if options.stage >= RenderingStage::Interpolation {
diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..5cf408e 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,11 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 3 || input.height < 3 {
+        log::error!("Too small to demosaic {}x{}", input.width, input.height);
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
@@ -165,7 +170,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.resize(3 * out_w as usize * out_h as usize, 0.0);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..8a4c99b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -37,10 +37,10 @@ macro_rules! uninit_vec {
 
 /// Convert a slice of u32 to a quad of u16
 /// If there is less than 4 in the slice, it will use the first
-/// value for the quad.
+/// value for the quad, or 0 if it is empty.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or(0) as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From 41a18bfbbc92046fbf2b6078dd6cabd262e2dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 08/69] fix: TIFF: out of bounds entry values, inline padding
 in values, directory loops; recursive iterator

---
 src/io.rs             |  5 +++-
 src/metadata.rs       | 37 +++++++++++++++-------------
 src/tiff.rs           |  6 ++---
 src/tiff/container.rs | 12 +++++++---
 src/tiff/entry.rs     | 56 ++++++++++++++++++++++++++++---------------
 src/tiff/iterator.rs  |  2 +-
 6 files changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 0d66a98..bfb5c1b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -275,7 +275,10 @@ impl std::io::Seek for View {
             }
             _ => pos,
         })
-        .map(|i| i - self.offset)
+        .and_then(|i| {
+            i.checked_sub(self.offset)
+                .ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))
+        })
     }
 }
 
diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..088a36c 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
@@ -163,23 +163,26 @@ impl std::iter::Iterator for Iterator<'_> {
     type Item = Metadata;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = match self.inner {
-            InnerIter::Container(ref mut iter) => iter.next().and_then(|container| {
-                let mut iter = InnerIter::Ifd(container.iter());
-                std::mem::swap(&mut self.inner, &mut iter);
-                self.stack.push(iter);
-                self.next()
-            }),
-            InnerIter::Ifd(ref mut iter) => iter.next(),
-            InnerIter::Empty => return None,
-        };
-        if next.is_none() {
-            if let Some(iter) = self.stack.pop() {
-                self.inner = iter;
-                return self.next();
+        loop {
+            match self.inner {
+                InnerIter::Container(ref mut iter) => {
+                    if let Some(container) = iter.next() {
+                        let iter = InnerIter::Ifd(container.iter());
+                        let parent = std::mem::replace(&mut self.inner, iter);
+                        self.stack.push(parent);
+                        continue;
+                    }
+                }
+                InnerIter::Ifd(ref mut iter) => {
+                    if let Some(next) = iter.next() {
+                        return Some(next);
+                    }
+                }
+                InnerIter::Empty => return None,
             }
+            // This one is done, resume with the parent.
+            self.inner = self.stack.pop()?;
         }
-        next
     }
 }
 
diff --git a/src/tiff.rs b/src/tiff.rs
index 5a8d886..6e79893 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -174,10 +174,10 @@ fn convert_cfa_pattern(dir: &Dir, entry: &Entry) -> Option<Pattern> {
 }
 
 fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
-    if entry.count < 4 {
+    let data = entry.data();
+    if data.len() < 8 {
         return None;
     }
-    let data = entry.data();
 
     let h = data[0];
     let v = data[1];
@@ -441,7 +441,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
+        let white: u32 = ((1_u64 << actual_bpc) - 1) as u32;
         rawdata.set_whites([white as u16; 4]);
     }
 
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..f2653cb 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -229,10 +229,16 @@ impl Container {
             let mut index = 0_usize;
             let mut dir_offset = {
                 let mut view = self.view.borrow_mut();
-                view.seek(SeekFrom::Start(4)).expect("Seek failed");
-                view.read_endian_u32(self.endian()).unwrap_or(0)
+                view.seek(SeekFrom::Start(4))
+                    .and_then(|_| view.read_endian_u32(self.endian()))
+                    .unwrap_or(0)
             };
+            let mut visited = std::collections::HashSet::new();
             while dir_offset != 0 {
+                if !visited.insert(dir_offset) {
+                    error!("Directory at {dir_offset} already read: loop");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
@@ -368,7 +374,7 @@ impl Container {
         list: &mut Vec<(u32, thumbnail::ThumbDesc)>,
     ) -> Result<usize> {
         if let Some(val_offset) = e.offset() {
-            let val_offset = val_offset + offset;
+            let val_offset = val_offset.checked_add(offset).ok_or(Error::FormatError)?;
             self.add_thumbnail_from_stream(val_offset, e.count, list)
         } else {
             log::error!("Entry for thumbnail has no offset");
diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..790799b 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -107,6 +107,12 @@ impl Entry {
         data_size <= 4
     }
 
+    /// The bytes for the value of unit size `size` at `index`.
+    fn unit_bytes(&self, size: usize, index: usize) -> Option<&[u8]> {
+        let start = index.checked_mul(size)?;
+        self.data.as_slice().get(start..start.checked_add(size)?)
+    }
+
     /// Set the entry as containing an offset.
     pub(crate) fn set_offset(&mut self, offset: u32, data: Vec<u8>) {
         self.data = DataBytes::Offset(offset, data);
@@ -124,6 +130,13 @@ impl Entry {
         self.data.as_slice()
     }
 
+    /// The data for entries whose count is in bytes. It doesn't include
+    /// the padding of inline data.
+    pub(crate) fn counted_data(&self) -> &[u8] {
+        let data = self.data.as_slice();
+        &data[..std::cmp::min(data.len(), self.count as usize)]
+    }
+
     /// monomorphic implementation of `load_data<E>`
     fn load_data_impl(&self, offset: u64, view: &mut View) -> Result<Vec<u8>> {
         let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
@@ -131,11 +144,11 @@ impl Entry {
         debug!("Loading data at {}: {} bytes", offset, data_size);
 
         view.seek(SeekFrom::Start(offset))?;
-        if data_size > (view.len() - offset) as usize {
+        if data_size as u64 > view.len().saturating_sub(offset) {
             log::error!("TIFFEntry: data size too large");
             return Err(Error::FormatError);
         }
-        let mut data = uninit_vec!(data_size);
+        let mut data = vec![0_u8; data_size];
         view.read_exact(&mut data)?;
 
         Ok(data)
@@ -188,9 +201,12 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            return if T::is_array() {
+                self.data.as_slice().get(index as usize..)
+            } else {
+                self.unit_bytes(T::unit_size(), index as usize)
+            }
+            .map(T::read::<E>);
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -215,13 +231,15 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::Short => Some(u16::read::<E>(
-                    &self.data.as_slice()[u16::unit_size() * index as usize..],
-                ) as u32),
-                TagType::Long => Some(u32::read::<E>(
-                    &self.data.as_slice()[u32::unit_size() * index as usize..],
-                )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Short => self
+                    .unit_bytes(u16::unit_size(), index as usize)
+                    .map(|b| u16::read::<E>(b) as u32),
+                TagType::Long => self
+                    .unit_bytes(u32::unit_size(), index as usize)
+                    .map(u32::read::<E>),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .map(|r| u32::from(&r)),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -242,12 +260,12 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::SShort => Some(i16::read::<E>(
-                    &self.data.as_slice()[i16::unit_size() * index as usize..],
-                ) as i32),
-                TagType::SLong => Some(i32::read::<E>(
-                    &self.data.as_slice()[i32::unit_size() * index as usize..],
-                )),
+                TagType::SShort => self
+                    .unit_bytes(i16::unit_size(), index as usize)
+                    .map(|b| i16::read::<E>(b) as i32),
+                TagType::SLong => self
+                    .unit_bytes(i32::unit_size(), index as usize)
+                    .map(i32::read::<E>),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -283,7 +301,7 @@ impl Entry {
     /// Get the string value out of the entry.
     pub fn string_value(&self) -> Option<String> {
         if self.type_ == exif::TagType::Ascii as i16 {
-            return Some(String::read::<NativeEndian>(self.data.as_slice()));
+            return Some(String::read::<NativeEndian>(self.counted_data()));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d34b5f5..bc36147 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -85,7 +85,7 @@ fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
         exif::TagType::Float => MetadataValue::Float(entry.value_array::<f32>(endian).unwrap()),
         exif::TagType::Double => MetadataValue::Double(entry.value_array::<f64>(endian).unwrap()),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            MetadataValue::Bytes(entry.data().to_vec())
+            MetadataValue::Bytes(entry.counted_data().to_vec())
         }
         exif::TagType::SByte => MetadataValue::SBytes(entry.value_array::<i8>(endian).unwrap()),
         exif::TagType::Short | exif::TagType::Long => {
-- 
2.43.0


From 084ba9ff9f4641b44ac65b50b61b0831d852510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 09/69] fix: CRW/CIFF: panics on short records, self-nested
 heaps, unbounded allocation; low bits, metering and exposure tags

---
 src/canon/crw.rs                |  18 +++--
 src/canon/crw/ciff.rs           |  58 +++++++++-----
 src/canon/crw/ciff/container.rs | 129 ++++++++++++++++++++++----------
 src/canon/crw/decompress.rs     |  19 +++--
 src/tiff/exif/tags.rs           |   4 +-
 5 files changed, 153 insertions(+), 75 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..6c9d139 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -134,7 +134,7 @@ impl CrwFile {
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
                         .ok();
-                    let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
+                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
                     log::warn!("Unexpected ColourInfo2 magic {magic}");
@@ -211,7 +211,7 @@ impl CrwFile {
             let r = heap.records().get(&ciff::Tag::WhiteBalanceTable)?;
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 // Some dark magic lifted from both rawspeed and dcraw
-                let wb_offset = 1 + (b"0134567028"[wb_idx as usize] - b'0') as u64 * 4;
+                let wb_offset = 1 + (b"0134567028".get(wb_idx as usize)? - b'0') as u64 * 4;
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64 + wb_offset * 2))
                     .ok()?;
@@ -244,7 +244,10 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return id
+                                        .first()
+                                        .and_then(|id| canon::CANON_MODEL_ID_MAP.get(id))
+                                        .copied();
                                 }
                                 None
                             })
@@ -363,10 +366,11 @@ impl RawFileImpl for CrwFile {
                         if let ciff::Record::InHeap((pos, len)) = r.data {
                             // XXX pattern is RGGB
                             if skip_decompression {
-                                let mut view = container.borrow_view_mut();
-                                view.seek(SeekFrom::Start(pos as u64))?;
-                                let mut data = vec![0; len as usize];
-                                view.read_exact(&mut data)?;
+                                let data = container.load_buffer8(pos as u64, len as u64)?;
+                                if data.len() < len as usize {
+                                    log::error!("CRW: raw data is truncated");
+                                    return Err(Error::FormatError);
+                                }
                                 let mut rawdata = RawImage::with_data8(
                                     x,
                                     y,
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..99effb8 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -156,6 +156,9 @@ impl Tag {
     }
 }
 
+/// The maximum depth of nested heaps. Canon has 3. A heap could contain itself.
+const MAX_HEAP_DEPTH: u32 = 5;
+
 type CameraSettings = Vec<u16>;
 
 #[derive(Debug)]
@@ -263,7 +266,10 @@ impl RecordEntry {
             Record::InRec(bytes)
         } else {
             let len = view.read_endian_u32(endian)?;
-            let offset = view.read_endian_u32(endian)? + base;
+            let offset = view
+                .read_endian_u32(endian)?
+                .checked_add(base)
+                .ok_or(Error::FormatError)?;
             Record::InHeap((offset, len))
         };
 
@@ -343,23 +349,25 @@ impl RecordEntry {
         }
     }
 
+    /// Load `len` bytes of the heap at `pos`.
+    fn heap_bytes(container: &Container, pos: u32, len: u32) -> Option<Vec<u8>> {
+        let bytes = container.load_buffer8(pos as u64, len as u64).ok()?;
+        if bytes.len() < len as usize {
+            return None;
+        }
+        Some(bytes)
+    }
+
     pub(super) fn data(&self, container: &Container) -> Option<RecordData> {
         match self.data {
             Record::InRec(_) => self.inline_data(container),
             Record::InHeap((pos, len)) => match self.type_() {
                 RecordType::Byte | RecordType::Byte2 => {
-                    let mut bytes = vec![0; len as usize];
-                    let mut view = container.borrow_view_mut();
-                    view.seek(SeekFrom::Start(pos as u64))
-                        .and_then(|_| view.read_exact(&mut bytes))
-                        .ok()
-                        .map(|_| RecordData::Byte(bytes))
+                    let bytes = Self::heap_bytes(container, pos, len)?;
+                    Some(RecordData::Byte(bytes))
                 }
                 RecordType::Ascii => {
-                    let mut s = vec![0; len as usize];
-                    let mut view = container.borrow_view_mut();
-                    view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                    view.read_exact(&mut s).ok()?;
+                    let s = Self::heap_bytes(container, pos, len)?;
                     Some(RecordData::Ascii(
                         s.split(|b| *b == 0)
                             .map(utils::from_maybe_nul_terminated)
@@ -368,8 +376,11 @@ impl RecordEntry {
                 }
                 RecordType::Word => {
                     let count = self.count()?;
-                    let mut values = vec![0_u16; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if view.len() < pos as u64 + len as u64 {
+                        return None;
+                    }
+                    let mut values = vec![0_u16; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u16_array(&mut values, container.endian())
                         .ok()?;
@@ -377,8 +388,11 @@ impl RecordEntry {
                 }
                 RecordType::DWord => {
                     let count = self.count()?;
-                    let mut values = vec![0_u32; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if view.len() < pos as u64 + len as u64 {
+                        return None;
+                    }
+                    let mut values = vec![0_u32; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u32_array(&mut values, container.endian())
                         .ok()?;
@@ -395,7 +409,11 @@ impl RecordEntry {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
             heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+                .map_err(|err| {
+                    log::error!("CIFF: Failed to load heap: {}", err);
+                    err
+                })
+                .ok()?;
             Some(heap)
         } else {
             None
@@ -408,6 +426,7 @@ impl RecordEntry {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: u32,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -449,8 +468,10 @@ impl RecordEntry {
                     }
                 }
                 RecordType::Heap1 | RecordType::Heap2 => {
-                    if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container);
+                    if depth >= MAX_HEAP_DEPTH {
+                        dump_writeln!(out, indent, "ERROR: Too many nested heaps");
+                    } else if let Some(RecordData::Heap(heap)) = self.data(container) {
+                        heap.write_dump(out, indent, container, depth + 1);
                     }
                 }
                 _ => {
@@ -488,7 +509,7 @@ impl Heap {
         if self.len as u64 + self.pos as u64 > view.len() {
             log::error!(
                 "CIFF Heap too big: {} for {}",
-                self.len + self.pos,
+                self.len as u64 + self.pos as u64,
                 view.len()
             );
             return Err(Error::FormatError);
@@ -525,13 +546,14 @@ impl Heap {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: u32,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container);
+                record.write_dump(out, indent, container, depth);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..6774f1f 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -38,6 +38,7 @@ use crate::{Dump, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
+    MAX_HEAP_DEPTH,
 };
 
 type Converter = fn(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry>;
@@ -65,7 +66,11 @@ lazy_static::lazy_static! {
 
 fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Ascii(ref string)) = record.data(container) {
-        vec![Entry::from_string(tag, &string[0])]
+        string
+            .first()
+            .map(|string| Entry::from_string(tag, string))
+            .into_iter()
+            .collect()
     } else {
         vec![]
     }
@@ -73,7 +78,11 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+        serial
+            .first()
+            .map(|serial| Entry::from_string(tag, &format!("{serial:X}")))
+            .into_iter()
+            .collect()
     } else {
         vec![]
     }
@@ -81,13 +90,21 @@ fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     let mut entries = vec![];
-    if let Some(camera_settings) = container.camera_settings() {
+    if let Some(camera_settings) = container
+        .camera_settings()
+        .filter(|settings| settings.len() > 20)
+    {
         // Macro mode
         let value = camera_settings[1];
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -118,10 +135,10 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
-        // Exposure mode
+        // Exposure program
         let value = camera_settings[20];
         let exposure = match value {
             0 => 0, // Easy
@@ -138,7 +155,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
@@ -147,11 +169,15 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
-        let mut fu = 0;
-        if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
-        }
+        let fl = match value.get(1) {
+            Some(fl) => *fl as u32,
+            None => return vec![],
+        };
+        let fu = container
+            .camera_settings()
+            .and_then(|camera_settings| camera_settings.get(25))
+            .map(|fu| *fu as u32)
+            .unwrap_or(0);
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
@@ -164,7 +190,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+        if let Some(date_time) = value
+            .first()
+            .and_then(|value| chrono::Utc.timestamp_opt(*value as i64, 0).single())
+        {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
@@ -182,7 +211,7 @@ pub(crate) struct Container {
     view: RefCell<View>,
     /// Endian of the container.
     endian: RefCell<Endian>,
-    header: OnceCell<HeapFileHeader>,
+    header: OnceCell<Option<HeapFileHeader>>,
     heap: OnceCell<Heap>,
     image_props: OnceCell<Option<Heap>>,
     image_spec: OnceCell<Option<ImageSpec>>,
@@ -304,7 +333,7 @@ impl Container {
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -312,7 +341,7 @@ impl Container {
             }
             if let Some(exif_info) = self.exif_info() {
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -323,13 +352,24 @@ impl Container {
         })
     }
 
-    fn translate_record_entry(&self, record: &RecordEntry, ifd_type: IfdType) -> Vec<Entry> {
+    fn translate_record_entry(
+        &self,
+        record: &RecordEntry,
+        ifd_type: IfdType,
+        depth: u32,
+    ) -> Vec<Entry> {
         if record.is_heap() {
+            if depth >= MAX_HEAP_DEPTH {
+                log::error!("CIFF: Too many nested heaps");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
-                    .flat_map(|(_, record)| self.translate_record_entry(record, ifd_type))
+                    .flat_map(|(_, record)| {
+                        self.translate_record_entry(record, ifd_type, depth + 1)
+                    })
                     .collect();
             }
         }
@@ -351,28 +391,39 @@ impl Container {
         Some(&self.dirs()[1])
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
-            let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
-            self.endian.replace(header.endian);
-            header
-        })
+    fn header(&self) -> Option<&HeapFileHeader> {
+        self.header
+            .get_or_init(|| {
+                let mut view = self.borrow_view_mut();
+                view.seek(SeekFrom::Start(0)).ok()?;
+                let header = HeapFileHeader::from_view(&mut view)
+                    .map_err(|err| {
+                        log::error!("CIFF: Couldn't read file header: {}", err);
+                        err
+                    })
+                    .ok()?;
+                self.endian.replace(header.endian);
+                Some(header)
+            })
+            .as_ref()
     }
 
     pub(crate) fn heap(&self) -> &Heap {
         self.heap.get_or_init(|| {
-            let header = self.header();
+            let header = match self.header() {
+                Some(header) => header,
+                None => return Heap::new(0, 0),
+            };
             if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
                 log::error!("Wrong CIFF header types");
             }
             let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
             // XXX heaplen should be < u32::MAX
+            let heaplen = view.len().saturating_sub(header.len as u64);
             let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
+            if let Err(err) = heap.load(&mut view, self.endian()) {
+                log::error!("CIFF: Failed to load heap: {}", err);
+            }
 
             heap
         })
@@ -446,10 +497,7 @@ impl Container {
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
                     if let Record::InHeap((pos, len)) = r.data {
-                        let mut s = vec![0; len as usize];
-                        let mut view = self.borrow_view_mut();
-                        view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                        view.read_exact(&mut s).ok()?;
+                        let s = RecordEntry::heap_bytes(self, pos, len)?;
                         let mut s = s.split(|b| *b == 0);
                         let mut v = s.next()?;
                         if tag == exif::EXIF_TAG_MODEL {
@@ -475,8 +523,12 @@ impl Container {
                         .get(&super::Tag::CameraSettings)
                         .and_then(|r| {
                             let count = r.count()?;
-                            if let Record::InHeap((pos, _)) = r.data {
+                            if let Record::InHeap((pos, len)) = r.data {
                                 let mut view = self.borrow_view_mut();
+                                if view.len() < pos as u64 + len as u64 {
+                                    log::error!("CIFF: Not enough data for camera settings");
+                                    return None;
+                                }
                                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
                                 let mut settings = vec![0_u16; count as usize];
                                 view.read_endian_u16_array(&mut settings, self.endian())
@@ -507,11 +559,12 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            if let Some(header) = self.header() {
+                header.write_dump(out, indent);
+            }
 
             let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            heap.write_dump(out, indent, self, 0);
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..a6bbad2 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -19,7 +19,7 @@
  * <http://www.gnu.org/licenses/>.
  */
 
-use std::io::SeekFrom;
+use std::io::{Read, SeekFrom};
 
 use byteorder::ReadBytesExt;
 
@@ -219,11 +219,12 @@ fn make_decoder(
 }
 
 fn canon_has_lowbits(reader: &mut dyn ReadAndSeek) -> Result<bool> {
-    let mut test = [0_u8; 0x4000 - 26];
+    let mut test = Vec::new();
     let mut ret = false;
     reader.rewind()?;
-    reader.read_exact(&mut test)?;
-    for i in 514..test.len() - 1 {
+    // The raw data of a small image can be shorter.
+    (&mut *reader).take(0x4000 - 26).read_to_end(&mut test)?;
+    for i in 514..test.len().saturating_sub(1) {
         if test[i] == 0xff {
             if test[i + 1] != 0 {
                 return Ok(true);
@@ -249,7 +250,7 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        let mut data = Vec::new();
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
@@ -314,11 +315,7 @@ impl Decompress {
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
                     for r in 0..4 {
-                        // outbuf is 64, so we must check for it to not
-                        // overflow (read out of bounds)
-                        let next = if i < 63 { outbuf[i + 1] } else { 0 };
-                        outbuf[i] = (next << 2) + ((c >> (r * 2)) & 3);
-
+                        outbuf[i] = (outbuf[i] << 2) | ((c >> (r * 2)) & 3);
                         i += 1;
                     }
                 }
@@ -326,6 +323,8 @@ impl Decompress {
             }
             data.extend_from_slice(&outbuf);
         }
+        // The last block might be partial.
+        data.truncate(self.width as usize * self.height as usize);
 
         Ok(RawImage::with_data16(
             self.width,
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From de508877ab1c1f68fabfd00f4460e1ef73c6f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 10/69] fix: unpackers: allocation from untrusted dimensions,
 overflows, out of bounds slices

---
 src/decompress.rs         | 24 ++++++++++++++--------
 src/olympus.rs            | 43 +++++++++++++++++----------------------
 src/olympus/decompress.rs |  9 ++++++++
 3 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..1540e9b 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -225,33 +225,39 @@ pub(crate) fn unpack_from_reader(
         compression
     );
     let block_size: usize = match bpc {
-        10 => (width / 4 * 5) as usize,
+        10 => width as usize / 4 * 5,
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
                 || compression == tiff::Compression::PanasonicRaw1
             {
-                ((width / 2 * 3) + width / 10) as usize
+                (width as usize / 2 * 3) + width as usize / 10
             } else {
-                (width / 2 * 3) as usize
+                width as usize / 2 * 3
             }
         }
-        14 => (width / 4 * 7) as usize,
+        14 => width as usize / 4 * 7,
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
         }
     };
     log::debug!("Block size = {}", block_size);
-    let mut block = vec![0; block_size];
-    let out_size = width as usize * height as usize;
-    let mut out_data = Vec::with_capacity(out_size);
+    let mut block = Vec::new();
+    let mut out_data = Vec::new();
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
-    let byte_len = std::cmp::min(byte_len, block_size * height as usize);
+    let byte_len = std::cmp::min(byte_len, block_size.saturating_mul(height as usize));
     while fetched < byte_len {
-        reader.read_exact(block.as_mut_slice())?;
+        // The size isn't to be trusted: only allocate what can be read.
+        block.clear();
+        (&mut *reader)
+            .take(block_size as u64)
+            .read_to_end(&mut block)?;
+        if block.len() < block_size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         fetched += block.len();
         match bpc {
             n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width as usize, &mut out_data)?,
diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..1d39f74 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -215,22 +215,19 @@ impl OrfFile {
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        let interlaced = buf.get(interlaced_offset..).unwrap_or_default();
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
             .enumerate()
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
-                let inb = if (row % 2) == 0 {
-                    &buf[off..]
-                } else {
-                    &interlaced[off..]
-                };
+                let field = if (row % 2) == 0 { buf } else { interlaced };
+                let inb = field.get(off..).unwrap_or_default();
 
                 let mut i = 0;
                 let mut o = 0;
-                while o < outb.len() {
+                while o + 1 < outb.len() {
                     let in_slice = &inb[i..];
                     if in_slice.len() < 3 {
                         // If read short, it's the end.
@@ -252,12 +249,7 @@ impl OrfFile {
     fn decode_12be_olympus(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
         let mut out: Vec<u16> = vec![0; width * height];
 
-        let mut i = 0;
-        let mut o = 0;
-        while i < buf.len() {
-            let in_slice = &buf[i..];
-            let out_slice = &mut out[o..];
-
+        for (in_slice, out_slice) in buf.chunks_exact(12).zip(out.chunks_exact_mut(8)) {
             out_slice[0] = ((in_slice[3] as u16) << 4) | (in_slice[2] as u16 >> 4);
             out_slice[1] = ((in_slice[2] as u16 & 0x0f) << 8) | in_slice[1] as u16;
             out_slice[2] = ((in_slice[0] as u16) << 4) | (in_slice[7] as u16 >> 4);
@@ -266,9 +258,6 @@ impl OrfFile {
             out_slice[5] = ((in_slice[4] as u16 & 0x0f) << 8) | in_slice[11] as u16;
             out_slice[6] = ((in_slice[10] as u16) << 4) | (in_slice[9] as u16 >> 4);
             out_slice[7] = ((in_slice[9] as u16 & 0x0f) << 8) | in_slice[8] as u16;
-
-            i += 12;
-            o += 8;
         }
 
         out
@@ -283,7 +272,10 @@ impl OrfFile {
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                let (w, h) = (width as usize, height as usize);
+                if w == 0 || h == 0 {
+                    None
+                } else if data8.len() == h.saturating_mul((w * 12 / 8) + ((w + 2) / 10)) {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
@@ -297,7 +289,7 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if data8.len() as u128 == h as u128 * w as u128 * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
@@ -459,7 +451,8 @@ impl RawFileImpl for OrfFile {
                         let start = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_START)
                             .unwrap_or(0)
-                            + mnote.mnote_offset;
+                            .checked_add(mnote.mnote_offset)
+                            .unwrap_or(0);
                         let len = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_LENGTH)
                             .unwrap_or(0);
@@ -590,12 +583,12 @@ impl RawFileImpl for OrfFile {
                             let mut crop = Rect {
                                 x,
                                 y,
-                                width: values[2] + 1 - x,
-                                height: values[3] + 1 - y,
+                                width: values[2].checked_add(1)?.checked_sub(x)?,
+                                height: values[3].checked_add(1)?.checked_sub(y)?,
                             };
                             if let Some(active_area) = active_area {
-                                crop.x += active_area.x;
-                                crop.y += active_area.y;
+                                crop.x = crop.x.saturating_add(active_area.x);
+                                crop.y = crop.y.saturating_add(active_area.y);
                             }
 
                             Some(crop)
@@ -628,7 +621,9 @@ impl Dump for OrfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..a106933 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,15 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    // A pixel is at least 6 bits: do not allocate for data that can't be there.
+    if (w / 2 * 2)
+        .checked_mul(h)
+        .and_then(|pixels| pixels.checked_mul(6))
+        .map(|bits| bits > input.len() * 8)
+        .unwrap_or(true)
+    {
+        return Err(Error::Decompression("ORF: Not enough data.".into()));
+    }
     let mut output: Vec<u16> = vec![0; h * w];
     let data = output.as_mut_slice();
 
-- 
2.43.0


From 19847bf92fb4a7e68d0cc1213d428c518549514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 11/69] fix: makernote values: short arrays, overflows and
 unloadable containers panicked; DNG active area; RAF data table

---
 src/canon/cr2.rs     | 11 ++++---
 src/canon/cr3.rs     |  8 ++++--
 src/dng.rs           | 12 ++++----
 src/epson.rs         |  9 ++++--
 src/fujifilm.rs      | 38 +++++++++++++++----------
 src/fujifilm/raf.rs  |  9 +++---
 src/minolta.rs       | 68 +++++++++++++++++++++++++++++---------------
 src/mp4/container.rs | 30 ++++++++++---------
 src/nikon.rs         | 43 ++++++++++++++++------------
 src/panasonic.rs     | 38 +++++++++++++------------
 src/pentax.rs        |  9 ++++--
 src/sony.rs          | 28 +++++++++++-------
 12 files changed, 184 insertions(+), 119 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 317ac13..21649bb 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() >= 3)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
@@ -179,7 +180,7 @@ impl Cr2File {
                 probe!(self.probe, "cr2.no_tiff_raw_data_len", "true");
                 // not found on the 1D, so we calculate it.
                 let len = std::cmp::min(container.borrow_view_mut().len(), u32::MAX as u64) as u32;
-                len - offset
+                len.saturating_sub(offset)
             });
         let mut rawdata =
             self.get_raw_bytes(0, 0, offset as u64, byte_len as u64, &[], skip_decompress)?;
@@ -268,8 +269,8 @@ impl Cr2File {
                 .map(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
                     if let Some(sensor_info) = &sensor_info {
-                        aspect_info.1.x += sensor_info.x;
-                        aspect_info.1.y += sensor_info.y;
+                        aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                        aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                     }
                     aspect_info
                 })
@@ -443,7 +444,9 @@ impl Dump for Cr2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index 3f4a414..3269202 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -217,8 +217,8 @@ impl RawFileImpl for Cr3File {
                     .map(|mut aspect_info| {
                         probe!(self.probe, "cr3.aspect_info", true);
                         if let Some(sensor_info) = &sensor_info {
-                            aspect_info.1.x += sensor_info.x;
-                            aspect_info.1.y += sensor_info.y;
+                            aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                            aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                         }
                         aspect_info
                     })
@@ -254,7 +254,9 @@ impl Dump for Cr3File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..cb39ffc 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -360,8 +360,8 @@ impl RawFileImpl for DngFile {
                             .map(|a| Rect {
                                 x: a[1],
                                 y: a[0],
-                                height: a[2],
-                                width: a[3],
+                                height: a[2].saturating_sub(a[0]),
+                                width: a[3].saturating_sub(a[1]),
                             })
                             .or_else(|| {
                                 Some(Rect {
@@ -378,8 +378,8 @@ impl RawFileImpl for DngFile {
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
                                 .map(|v| Point {
-                                    x: v[0] + active_area.x,
-                                    y: v[1] + active_area.y,
+                                    x: v[0].saturating_add(active_area.x),
+                                    y: v[1].saturating_add(active_area.y),
                                 })?;
                             let size = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_SIZE)
@@ -442,7 +442,9 @@ impl Dump for DngFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/epson.rs b/src/epson.rs
index a35f402..54af581 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -204,7 +204,10 @@ impl RawFileImpl for ErfFile {
                             {
                                 rawdata.set_blacks(utils::to_quad(&blacks));
                             }
-                            if let Some(wb_values) = mnote.u16_value_array(exif::MNOTE_EPSON_WB) {
+                            if let Some(wb_values) = mnote
+                                .u16_value_array(exif::MNOTE_EPSON_WB)
+                                .filter(|wb_values| wb_values.len() > 25)
+                            {
                                 if wb_values.len() != 128 {
                                     log::error!("EPSON white balance len {}", wb_values.len());
                                 }
@@ -241,7 +244,9 @@ impl Dump for ErfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index f4a55ee..8f992cc 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -363,7 +363,7 @@ impl RawFileImpl for RafFile {
                 });
 
                 let mut wb = container.value(raf::TAG_WB_OLD).and_then(|v| match v {
-                    raf::Value::Bytes(wb) => {
+                    raf::Value::Bytes(wb) if wb.len() >= 8 => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
                         let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
@@ -424,25 +424,28 @@ impl RawFileImpl for RafFile {
                     }) {
                         cfa_offset = dir
                             .value::<u32>(raf::FUJI_TAG_RAW_OFFSET)
-                            .map(|v| v + raw_container.cfa_offset())
-                            .unwrap_or(0) as u64;
+                            .map(|v| v as u64 + raw_container.cfa_offset() as u64)
+                            .unwrap_or(0);
                         cfa_len = dir.value::<u32>(raf::FUJI_TAG_RAW_BYTE_LEN).unwrap_or(0) as u64;
                         bps = dir.value::<u32>(raf::FUJI_TAG_RAW_BPS).unwrap_or(0) as u16;
                         blacks = dir
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
                 } else {
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
-                    cfa_len = raw_container.cfa_len() as u64 - 2048;
+                    cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
                     bps = if compressed { 12 } else { 16 };
                 }
@@ -468,9 +471,7 @@ impl RawFileImpl for RafFile {
                     } else {
                         let mut view = raw_container.borrow_view_mut();
                         let unpacked = if bps == 14 {
-                            let mut unpacked = Vec::with_capacity(
-                                raw_size.width as usize * raw_size.height as usize,
-                            );
+                            let mut unpacked = Vec::new();
                             let view = crate::io::Viewer::create_subview(&view, cfa_offset)?;
                             let mut reader = BitReaderLe32::new(view);
                             unpack::unpack_14to16(
@@ -544,7 +545,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
@@ -560,7 +561,12 @@ impl RawFileImpl for RafFile {
                     }
                 };
                 rawdata.set_blacks(utils::to_quad(&blacks));
-                rawdata.set_whites([((1 << bps as u32) - 1) as u16; 4]);
+                rawdata.set_whites(
+                    [1_u64
+                        .checked_shl(bps as u32)
+                        .map(|v| (v - 1) as u16)
+                        .unwrap_or(u16::MAX); 4],
+                );
                 rawdata.set_active_area(active_area);
                 rawdata.set_user_crop(crop, aspect_ratio);
                 if let Some(wb) = wb {
@@ -587,7 +593,9 @@ impl Dump for RafFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0372d71..f9d2ea6 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -8,7 +8,7 @@ use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
-use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder, LittleEndian, ReadBytesExt};
 use once_cell::unsync::OnceCell;
 
 use crate::container;
@@ -595,11 +595,12 @@ impl MetaContainer {
                 let v = view.read_u32::<BigEndian>()?;
                 Value::Int(v)
             } else if tag == TAG_RAF_DATA {
-                let mut v = uninit_vec!(sz as usize);
-                view.read_u32_into::<LittleEndian>(&mut v)?;
+                let mut bytes = vec![0_u8; sz as usize];
+                view.read_exact(&mut bytes)?;
+                let v = bytes.chunks_exact(4).map(LittleEndian::read_u32).collect();
                 Value::U32s(v)
             } else {
-                let mut v = uninit_vec!(sz as usize);
+                let mut v = vec![0_u8; sz as usize];
                 view.read_exact(&mut v)?;
                 Value::Bytes(v)
             };
diff --git a/src/minolta.rs b/src/minolta.rs
index 0f9c00f..b5477e5 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,11 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self
+                    .container
+                    .get()
+                    .and_then(|container| container.ifd_container())
+                    .ok_or(Error::NotFound)?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -236,7 +240,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get()?.ifd_container()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -253,11 +257,12 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
+            let num_pixels = rawinfo.x as u64 * rawinfo.y as u64;
             let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
+                num_pixels + (num_pixels >> 1)
             } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+                2 * num_pixels
+            };
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len)?;
@@ -271,7 +276,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let mut unpacked = Vec::with_capacity(raw.len() / 3 * 2);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -334,7 +339,9 @@ impl Dump for MrwFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
@@ -535,7 +542,7 @@ pub(crate) struct MrwContainer {
     /// TIFF IFD
     ttw: Option<DataBlock>,
     /// The IFD container from `ttw`.
-    ifd: OnceCell<tiff::Container>,
+    ifd: OnceCell<Option<tiff::Container>>,
     /// White balance
     wbg: Option<DataBlock>,
     /// Image processing settings
@@ -600,16 +607,27 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
-            let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
-
-            ifd
-        })
+    fn ifd_container(&self) -> Option<&tiff::Container> {
+        self.ifd
+            .get_or_init(|| {
+                let ttw = self.ttw.as_ref().or_else(|| {
+                    log::error!("MRW: no TTW in the file");
+                    None
+                })?;
+                Viewer::create_subview(&self.view.borrow(), ttw.offset + DATA_BLOCK_HEADER_LENGTH)
+                    .and_then(|view| {
+                        let mut ifd =
+                            tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
+                        ifd.load(None)?;
+                        Ok(ifd)
+                    })
+                    .map_err(|err| {
+                        log::error!("MRW: Failed to load IFD container: {}", err);
+                        err
+                    })
+                    .ok()
+            })
+            .as_ref()
     }
 
     pub(crate) fn minolta_prd(&self) -> Result<RawInfo> {
@@ -652,13 +670,13 @@ impl MrwContainer {
         self.wbg.as_ref().and_then(|wbg| {
             let rd = wbg
                 .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let gd = wbg
                 .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let bd = wbg
                 .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
             let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
             let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
@@ -715,7 +733,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -812,7 +832,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Some(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..b07f9a4 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -134,7 +134,10 @@ impl Container {
         // box (24) + content (8) + prvw box (8) + unknown (4)
         // We need to skip the "boxes" (ISO container)
         // And skip a short (16bits) value.
-        let offset = preview_offset.0 + 44 + 2;
+        let offset = preview_offset
+            .0
+            .checked_add(44 + 2)
+            .ok_or(Error::FormatError)?;
 
         let mut view = self.view.borrow_mut();
         view.seek(SeekFrom::Start(offset))?;
@@ -182,7 +185,12 @@ impl Container {
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
                         let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
-                        ifd.load(None).expect("ifd load");
+                        ifd.load(None)
+                            .map_err(|err| {
+                                log::error!("Failed to load metadata block: {}", err);
+                                err
+                            })
+                            .ok()?;
                         return Some((viewer, ifd));
                     }
                 }
@@ -190,8 +198,7 @@ impl Container {
             })
         }
 
-        let len = self
-            .meta_ifds
+        self.meta_ifds
             .get_or_init(|| {
                 if let Ok(craw) = self.craw_header() {
                     vec![
@@ -208,13 +215,8 @@ impl Container {
                     vec![]
                 }
             })
-            .len();
-
-        if len < idx as usize {
-            None
-        } else {
-            self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
-        }
+            .get(idx as usize)
+            .and_then(|holder| holder.as_ref())
     }
 
     /// Number of tracks in the ISO container
@@ -260,7 +262,7 @@ impl Container {
 
         let video = match track.stsd {
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
+            Some(ref data) => data.descriptions.first().ok_or(Error::FormatError)?,
             None => return Err(Error::FormatError),
         };
 
@@ -277,13 +279,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..99a40c7 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -424,7 +424,7 @@ impl NefFile {
                 let rows = rawdata.height() as usize;
                 let raw_columns = rawdata.width() as usize;
                 // XXX not always true
-                let columns = raw_columns - 1;
+                let columns = raw_columns.checked_sub(1).ok_or(Error::FormatError)?;
 
                 let data8 = rawdata.data8();
                 if data8.is_none() {
@@ -434,9 +434,9 @@ impl NefFile {
                     DiffIterator::new(curve.huffman.unwrap(), rawdata.data8().as_ref().unwrap());
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
-                // Using uninit_vec! here is slower.
-                let mut new_data = vec![0; rows * columns];
-                for i in 0..rows {
+                // The dimensions aren't to be trusted: there could be less data.
+                let mut new_data = Vec::new();
+                for _ in 0..rows {
                     for j in 0..raw_columns {
                         let t = iter.get().map_err(|err| {
                             log::error!("Error get");
@@ -444,7 +444,7 @@ impl NefFile {
                         })?;
                         if j < columns {
                             let shift: u16 = 16 - rawdata.bpc();
-                            new_data[i * columns + j] = curve.curve[t as usize & 0x3fff] << shift;
+                            new_data.push(curve.curve[t as usize & 0x3fff] << shift);
                         }
                     }
                 }
@@ -469,7 +469,7 @@ impl NefFile {
     fn encrypted_white_balance(&self, mnote: &Dir, entry: &tiff::Entry) -> Option<[f64; 3]> {
         probe!(self.probe, "nef.wb.encrypted", "true");
         let data = entry.data();
-        let version = &data[0..4];
+        let version = data.get(0..4)?;
         let endian = mnote.endian();
         probe!(
             self.probe,
@@ -500,9 +500,9 @@ impl NefFile {
             let r = BigEndian::read_u16(data) as f64;
             let b = BigEndian::read_u16(&data[2..]) as f64;
             Some([256.0 / r, 1.0, 256.0 / b])
-        } else if &data[0..4] == b"NRW " {
+        } else if data.get(0..4) == Some(b"NRW ") {
             probe!(self.probe, "nef.wb.nrw", "true");
-            let offset = if &data[4..8] != b"0100" && entry.count > 72 {
+            let offset = if data.get(4..8) != Some(b"0100") && entry.count > 72 {
                 56
             } else if entry.count > 1572 {
                 1556
@@ -511,12 +511,12 @@ impl NefFile {
                 return None;
             };
             probe!(self.probe, "nef.wb.nrw.offset", offset);
-            let data = &data[offset..];
-            let r = (LittleEndian::read_u32(data) << 2) as f64;
-            let g =
-                (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
-            let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
-            Some([g / r, 1.0, b / r])
+            let data = data.get(offset..offset + 16)?;
+            let r = LittleEndian::read_u32(data) as f64 * 4.0;
+            let g = LittleEndian::read_u32(&data[4..]) as f64
+                + LittleEndian::read_u32(&data[8..]) as f64;
+            let b = LittleEndian::read_u32(&data[12..]) as f64 * 4.0;
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
@@ -531,7 +531,10 @@ impl NefFile {
                 // `ColorBalanceA` (see [`nrw_white_balance`])
                 if entry.count >= 4 {
                     probe!(self.probe, "nef.wb.nikon", "true");
-                    entry.float_value_array(mnote.endian()).map(|v| {
+                    let levels = entry
+                        .float_value_array(mnote.endian())
+                        .filter(|v| v.len() >= 3);
+                    levels.map(|v| {
                         let mut g = v[2];
                         if g <= 0.0 {
                             g = 1.0;
@@ -602,8 +605,9 @@ impl RawFileImpl for NefFile {
                         None,
                     )
                     .and_then(|dir| {
-                        let start = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
-                            + mnote.mnote_offset;
+                        let start = dir
+                            .value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_LENGTH)?;
                         container
                             .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -681,6 +685,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
@@ -717,7 +722,9 @@ impl Dump for NefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 8815f6b..ec640b8 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1119,27 +1119,28 @@ impl RawFileImpl for Rw2File {
             };
             raw_data.set_user_crop(Some(user_crop), None);
 
+            let max_level = 1_u32.checked_shl(bpc as u32).unwrap_or(0).wrapping_sub(1);
             let wr = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
             let wg = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
             let wb = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
             let br = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
             let bg = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
             let bb = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_level) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
@@ -1193,18 +1194,19 @@ impl Dump for Rw2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..79bbc3a 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -522,7 +522,10 @@ impl RawFileImpl for PefFile {
                             rawdata.set_blacks([black; 4]);
                         }
                     }
-                    if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
+                    if let Some(wb) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE)
+                        .filter(|wb| wb.len() >= 4)
+                    {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
                         let g = wb[1] as f64;
                         let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
@@ -577,7 +580,9 @@ impl Dump for PefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 5f37acc..dc3c52c 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -900,7 +900,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -916,7 +916,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -925,7 +925,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match *camera_settings.get(10)? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1029,10 +1029,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
@@ -1049,7 +1053,7 @@ impl ArwFile {
                 }
                 if let Some(whites) = dir.uint_value_array(exif::DNG_TAG_WHITE_LEVEL) {
                     rawimage.set_whites(utils::to_quad(&whites));
-                } else if let Some((_, white)) = levels {
+                } else if let Some((_, white)) = levels.filter(|(_, white)| *white != 0) {
                     rawimage.set_whites([white; 4]);
                 }
                 rawimage
@@ -1070,8 +1074,8 @@ impl ArwFile {
         // They don't match the ImageWidth and ImageHeight
         let width = prd.x; //3881;
         let height = prd.y; //2608;
-        let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
+        let byte_len = width as u64 * height as u64 * 2;
+        let data = container.load_buffer8(offset as u64, byte_len)?;
 
         let mut rawimage = RawImage::with_data8(
             width,
@@ -1190,7 +1194,9 @@ impl Dump for ArwFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From 1055790d81100d1ff7eaca4325fcf0793f0beed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 12/69] fix: identification and uuid boxes cope with short and
 interrupted reads

---
 src/identify.rs      |  5 +++--
 src/mp4/parse/mod.rs |  2 +-
 src/utils.rs         | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/identify.rs b/src/identify.rs
index 89252e3..44d03df 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -22,7 +22,7 @@
 //! Indentification of RAW files.
 
 use std::collections::HashMap;
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 use std::iter::FromIterator;
 
 use once_cell::sync::Lazy;
@@ -32,6 +32,7 @@ use crate::fujifilm;
 use crate::io::View;
 use crate::tiff;
 use crate::tiff::{exif, Ifd, IfdType};
+use crate::utils;
 
 const TYPE_MIME: [(Type, &str); 15] = [
     (Type::Arw, "image/x-sony-arw"),
@@ -124,7 +125,7 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
     // Change as needed
     let mut buf = [0_u8; 16];
 
-    let len = content.read(&mut buf)?;
+    let len = utils::read_up_to(content, &mut buf)?;
     if len <= 4 {
         return Err(Error::BufferTooSmall);
     }
diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..d26fd6e 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1628,7 +1628,7 @@ fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
     let uuid = if name == BoxType::UuidBox {
         if size >= offset + 16 {
             let mut buffer = [0u8; 16];
-            let count = src.read(&mut buffer)?;
+            let count = crate::utils::read_up_to(src, &mut buffer)?;
             offset += count.to_u64();
             if count == 16 {
                 Some(buffer)
diff --git a/src/utils.rs b/src/utils.rs
index 8a4c99b..38cca58 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -50,6 +50,24 @@ pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     }
 }
 
+/// Read until `buf` is full or the end is reached. A single `read()`
+/// may return less than what is available.
+pub(crate) fn read_up_to<R: std::io::Read + ?Sized>(
+    reader: &mut R,
+    buf: &mut [u8],
+) -> std::io::Result<usize> {
+    let mut len = 0;
+    while len < buf.len() {
+        match reader.read(&mut buf[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(err) => return Err(err),
+        }
+    }
+    Ok(len)
+}
+
 /// Create an mut u8 slice from a `mut [T]`.
 pub(crate) fn to_u8_slice_mut<T>(slice: &mut [T]) -> &mut [u8] {
     unsafe {
-- 
2.43.0


From 2a4378912b4d1fb75d9bba242116789ac85f5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 13/69] fix: failed reads must not turn into data: invalid
 entries, tiles, slices, CRW and MRW fields; stream length

---
 src/canon/cr2.rs                | 13 ++++++++-----
 src/canon/crw.rs                |  6 +++++-
 src/canon/crw/ciff/container.rs |  9 ++++++---
 src/epson.rs                    |  5 ++++-
 src/jpeg.rs                     |  4 +++-
 src/minolta.rs                  |  4 ++--
 src/rawfile.rs                  |  5 +++--
 src/tiff.rs                     |  4 ++++
 src/tiff/dir.rs                 |  2 +-
 src/tiff/entry.rs               |  7 +++++++
 10 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 21649bb..c4f286a 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -218,15 +218,18 @@ impl Cr2File {
         let slices = cfa_ifd
             .entry(exif::CR2_TAG_SLICE)
             .or_else(|| {
+                probe!(self.probe, "cr2.slices", "false");
                 log::debug!("CR2 slice not found");
                 None
             })
-            .and_then(|entry| entry.uint_value_array(container.endian()))
-            .or_else(|| {
-                probe!(self.probe, "cr2.slices", "false");
-                log::debug!("CR2 slice value not found");
-                None
+            .map(|entry| {
+                // Without the slices the image would be scrambled.
+                entry.uint_value_array(container.endian()).ok_or_else(|| {
+                    log::error!("CR2 slice value is invalid");
+                    Error::FormatError
+                })
             })
+            .transpose()?
             .unwrap_or_default();
 
         // The tags exif::EXIF_TAG_PIXEL_X_DIMENSION
diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 6c9d139..dfd5180 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -181,7 +181,7 @@ impl CrwFile {
                         view.seek(SeekFrom::Start(pos as u64 + offset)).ok()?;
                         let mut wb_data = [0_u16; 3];
                         view.read_endian_u16_array(&mut wb_data, container.endian())
-                            .ok();
+                            .ok()?;
                         let r = (wb_data[1] ^ key.1) as f64;
                         let g = (wb_data[0] ^ key.0) as f64;
                         let b = (wb_data[2] ^ key.0) as f64;
@@ -385,6 +385,10 @@ impl RawFileImpl for CrwFile {
                                 rawdata.set_active_area(sensor_info.map(|v| v.1));
                                 Ok(rawdata)
                             } else {
+                                if cfa_x == 0 || cfa_y == 0 {
+                                    log::error!("CRW: no sensor dimensions");
+                                    return Err(Error::NotFound);
+                                }
                                 let mut decompressor =
                                     Decompress::new(decoder_table as usize, cfa_x, cfa_y);
                                 let mut view = Viewer::create_subview(
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 6774f1f..c978e91 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -173,11 +173,14 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
             Some(fl) => *fl as u32,
             None => return vec![],
         };
-        let fu = container
+        // Without its unit the value is meaningless.
+        let fu = match container
             .camera_settings()
             .and_then(|camera_settings| camera_settings.get(25))
-            .map(|fu| *fu as u32)
-            .unwrap_or(0);
+        {
+            Some(fu) => *fu as u32,
+            None => return vec![],
+        };
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
diff --git a/src/epson.rs b/src/epson.rs
index 54af581..c93bff9 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -137,7 +137,10 @@ impl RawFileImpl for ErfFile {
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
                 mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
-                    let mut data = Vec::from(e.data());
+                    let mut data = Vec::from(e.counted_data());
+                    if data.is_empty() {
+                        return;
+                    }
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
                     data[0] = 0xff;
                     let desc = thumbnail::ThumbDesc {
diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..07fa8aa 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -146,7 +146,9 @@ impl Dump for JpegFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/minolta.rs b/src/minolta.rs
index b5477e5..ad34115 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -645,7 +645,7 @@ impl MrwContainer {
         let is_compressed = prd
             .uint8_value(Prd::StorageType as u64, self)
             .map(|storage| storage == StorageType::Packed as u8)
-            .unwrap_or(false);
+            .ok_or(Error::NotFound)?;
         let mosaic = prd
             .uint16_value(Prd::BayerPattern as u64, self)
             .map(|pattern| {
@@ -655,7 +655,7 @@ impl MrwContainer {
                     Pattern::Rggb
                 }
             })
-            .unwrap_or(Pattern::Rggb);
+            .ok_or(Error::NotFound)?;
 
         Ok(RawInfo {
             x,
diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..1cefd0f 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -134,8 +134,9 @@ where
 /// Use `RawFile::from_file() or `RawFile::from_memory`
 /// Will return `Error::UnrecognizedFormat` or some `Error::IOError`
 /// if the file can't be identified.
-fn from_io(readable: Box<dyn ReadAndSeek>, type_hint: Option<Type>) -> Result<RawFileHandle> {
-    let viewer = io::Viewer::new(readable, 0);
+fn from_io(mut readable: Box<dyn ReadAndSeek>, type_hint: Option<Type>) -> Result<RawFileHandle> {
+    let length = readable.seek(std::io::SeekFrom::End(0))?;
+    let viewer = io::Viewer::new(readable, length);
     let type_hint = if type_hint.is_some() {
         type_hint
     } else {
diff --git a/src/tiff.rs b/src/tiff.rs
index 6e79893..ec6bd6f 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -253,6 +253,10 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             tile_offsets = dir
                 .entry(exif::TIFF_TAG_TILE_OFFSETS)
                 .and_then(|e| e.value_array::<u32>(dir.endian()));
+            if tile_bytes.is_none() || tile_offsets.is_none() {
+                log::error!("TIFF: no usable strips or tiles");
+                return None;
+            }
             // the tile are individual JPEGS....
             let x = dir.uint_value(exif::TIFF_TAG_TILE_WIDTH).unwrap_or(0);
             let y = dir.uint_value(exif::TIFF_TAG_TILE_LENGTH).unwrap_or(0);
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..c2465a5 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -571,7 +571,7 @@ impl Dir {
                     log::error!(
                         "Skipping entry {id:x} at {pos} with count {count}, Setting type to Error"
                     );
-                    entry.type_ = TagType::Error_ as i16;
+                    entry.set_error();
                 }
             }
             entries.insert(id, entry);
diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 790799b..57ce65b 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -118,6 +118,13 @@ impl Entry {
         self.data = DataBytes::Offset(offset, data);
     }
 
+    /// Mark the entry as invalid: its data couldn't be loaded.
+    pub(crate) fn set_error(&mut self) {
+        self.type_ = TagType::Error_ as i16;
+        // What we have is the offset, not the data.
+        self.data = DataBytes::External(vec![]);
+    }
+
     /// Get the offset if it exists
     pub(crate) fn offset(&self) -> Option<u32> {
         match self.data {
-- 
2.43.0


From a2c745ad4bbb56ba10b2fd6d7530fdd3cb8abdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 14/69] fix: LJPEG: reading past the end underflowed the bit
 count; ORF: truncated 16-bit data taken as compressed

---
 src/decompress/bit_reader.rs | 4 ++--
 src/olympus.rs               | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index aa489dc..969eb09 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
diff --git a/src/olympus.rs b/src/olympus.rs
index 1d39f74..0c722c8 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -496,7 +496,10 @@ impl RawFileImpl for OrfFile {
             .map(|mut data| {
                 let width = data.width();
                 let height = data.height();
-                let compression = if data.data_size() < width as usize * height as usize * 2 {
+                // Data that is already 16-bits is not compressed, it's truncated.
+                let compression = if data.data8().is_some()
+                    && data.data_size() < width as usize * height as usize * 2
+                {
                     data.set_compression(tiff::Compression::Olympus);
                     data.set_data_type(DataType::CompressedRaw);
                     tiff::Compression::Olympus
-- 
2.43.0


From 2f3c900820f6bb2850cc85bbc8fce825d2ee3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 15/69] fix: mosaic: patterns with unknown colours or no site
 were accepted, size of non 2x2 patterns, C pattern getter

---
 src/capi/mosaic.rs | 19 +++++++++++++++----
 src/mosaic.rs      | 21 ++++++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..78c2600 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -34,8 +34,19 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the pattern. The number of sites is returned in `count`.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    let pattern = or_unwrap!(mosaic_info, &[][..], mosaic_info.pattern());
+    if !count.is_null() {
+        unsafe { *count = pattern.len() as u16 };
+    }
+    if pattern.is_empty() {
+        std::ptr::null()
+    } else {
+        // `PatternColour` is `repr(u8)`.
+        pattern.as_ptr() as *const u8
+    }
 }
diff --git a/src/mosaic.rs b/src/mosaic.rs
index 201589b..50eb49a 100644
--- a/src/mosaic.rs
+++ b/src/mosaic.rs
@@ -65,7 +65,7 @@ impl PatternColour {
             Self::Red => 'R',
             Self::Green => 'G',
             Self::Blue => 'B',
-            _ => unreachable!(),
+            Self::Unknown => '?',
         }
     }
 }
@@ -125,12 +125,15 @@ impl std::convert::TryFrom<&[u8]> for Pattern {
             } else {
                 Err("Invalid pattern")
             }
+        } else if v.is_empty() {
+            Err("Empty pattern")
         } else {
             let colours: Vec<PatternColour> = v
                 .iter()
                 .map(|colour| PatternColour::try_from_primitive(*colour))
                 .take_while(Result::is_ok)
                 .map(|v| v.unwrap())
+                .take_while(|colour| *colour != Unknown)
                 .collect();
             if colours.len() == v.len() {
                 Ok(Self::NonRgb22(colours))
@@ -147,6 +150,16 @@ impl Pattern {
         self.into()
     }
 
+    /// The size of a non 2x2 pattern of `len` sites: square, like X-Trans
+    /// that is 6x6. Otherwise it's a single row as we don't know the layout.
+    fn non_rgb22_size(len: usize) -> (usize, usize) {
+        (1..=len)
+            .take_while(|side| side * side <= len)
+            .find(|side| side * side == len)
+            .map(|side| (side, side))
+            .unwrap_or((len, usize::from(len != 0)))
+    }
+
     pub fn width(&self) -> usize {
         match *self {
             Self::Empty => 0,
@@ -154,8 +167,7 @@ impl Pattern {
             Self::Gbrg => 2,
             Self::Bggr => 2,
             Self::Grbg => 2,
-            // XXX inacurate. will do for now
-            Self::NonRgb22(_) => 6,
+            Self::NonRgb22(ref p) => Self::non_rgb22_size(p.len()).0,
         }
     }
 
@@ -166,8 +178,7 @@ impl Pattern {
             Self::Gbrg => 2,
             Self::Bggr => 2,
             Self::Grbg => 2,
-            // XXX inacurate. will do for now
-            Self::NonRgb22(_) => 6,
+            Self::NonRgb22(ref p) => Self::non_rgb22_size(p.len()).1,
         }
     }
 
-- 
2.43.0


From 0209e3f7c881220e515e286b79cfa34ed0f5a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 16/69] fix: a place pointed at many times is only read once

---
 src/canon/crw/ciff.rs           | 19 ++++++++++++++++---
 src/canon/crw/ciff/container.rs | 19 ++++++++++++++-----
 src/tiff/dir.rs                 | 18 ++++++++++++++++--
 src/tiff/entry.rs               | 13 ++++++++-----
 4 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 99effb8..31e5666 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -21,7 +21,7 @@
 
 pub(crate) mod container;
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use num_enum::{FromPrimitive, IntoPrimitive};
@@ -292,6 +292,15 @@ impl RecordEntry {
         self.type_() == RecordType::Heap1 || self.type_() == RecordType::Heap2
     }
 
+    /// Mark the record data as visited. Return `false` if it already was:
+    /// in a well formed file a heap is only referred to once.
+    fn visit(&self, visited: &mut HashSet<(u32, u32)>) -> bool {
+        match self.data {
+            Record::InHeap(location) => visited.insert(location),
+            Record::InRec(_) => true,
+        }
+    }
+
     fn count(&self) -> Option<u32> {
         if let Record::InHeap((_, length)) = self.data {
             match self.type_() {
@@ -427,6 +436,7 @@ impl RecordEntry {
         indent: u32,
         container: &Container,
         depth: u32,
+        visited: &mut HashSet<(u32, u32)>,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -470,8 +480,10 @@ impl RecordEntry {
                 RecordType::Heap1 | RecordType::Heap2 => {
                     if depth >= MAX_HEAP_DEPTH {
                         dump_writeln!(out, indent, "ERROR: Too many nested heaps");
+                    } else if !self.visit(visited) {
+                        dump_writeln!(out, indent, "ERROR: Heap already visited");
                     } else if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container, depth + 1);
+                        heap.write_dump(out, indent, container, depth + 1, visited);
                     }
                 }
                 _ => {
@@ -547,13 +559,14 @@ impl Heap {
         indent: u32,
         container: &Container,
         depth: u32,
+        visited: &mut HashSet<(u32, u32)>,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container, depth);
+                record.write_dump(out, indent, container, depth, visited);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index c978e91..61c71b4 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -22,7 +22,7 @@
 //! The CIFF container. This is used only by CRW files.
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
@@ -335,16 +335,20 @@ impl Container {
 
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
+                let mut visited = HashSet::new();
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
+                    let entries =
+                        self.translate_record_entry(record, IfdType::Exif, 0, &mut visited);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
                 })
             }
             if let Some(exif_info) = self.exif_info() {
+                let mut visited = HashSet::new();
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
+                    let entries =
+                        self.translate_record_entry(record, IfdType::Exif, 0, &mut visited);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -360,18 +364,23 @@ impl Container {
         record: &RecordEntry,
         ifd_type: IfdType,
         depth: u32,
+        visited: &mut HashSet<(u32, u32)>,
     ) -> Vec<Entry> {
         if record.is_heap() {
             if depth >= MAX_HEAP_DEPTH {
                 log::error!("CIFF: Too many nested heaps");
                 return vec![];
             }
+            if !record.visit(visited) {
+                log::error!("CIFF: Heap already visited");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
                     .flat_map(|(_, record)| {
-                        self.translate_record_entry(record, ifd_type, depth + 1)
+                        self.translate_record_entry(record, ifd_type, depth + 1, visited)
                     })
                     .collect();
             }
@@ -567,7 +576,7 @@ impl Dump for Container {
             }
 
             let heap = self.heap();
-            heap.write_dump(out, indent, self, 0);
+            heap.write_dump(out, indent, self, 0, &mut HashSet::new());
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index c2465a5..b878c1a 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -22,7 +22,7 @@
 //! Image File Directory is the main data structure of TIFF used by Exif
 //! and most RAW format.
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -552,6 +552,9 @@ impl Dir {
         view.seek(SeekFrom::Start(dir_offset as u64))?;
         debug!("Dir starts at {dir_offset}");
         let num_entries = view.read_i16::<E>()?;
+        // The entries of a directory don't overlap: together they can't
+        // have more data than the file.
+        let mut available = view.len();
         for _ in 0..num_entries {
             let id = view.read_u16::<E>()?;
             let type_ = view.read_i16::<E>()?;
@@ -562,7 +565,11 @@ impl Dir {
             let mut entry = Entry::new(id, type_, count, data);
             if !entry.is_inline() {
                 let pos = view.stream_position()?;
-                let r = entry.load_data::<E>(base_offset, view);
+                let r = if entry.data_size() > available {
+                    Err(Error::FormatError)
+                } else {
+                    entry.load_data::<E>(base_offset, view)
+                };
                 view.seek(SeekFrom::Start(pos))?;
                 if r.is_err() {
                     // We'll just stop parsing.
@@ -572,6 +579,8 @@ impl Dir {
                         "Skipping entry {id:x} at {pos} with count {count}, Setting type to Error"
                     );
                     entry.set_error();
+                } else {
+                    available -= entry.data_size();
                 }
             }
             entries.insert(id, entry);
@@ -782,6 +791,7 @@ impl Dir {
     pub(crate) fn get_sub_ifds(&self, container: &tiff::Container) -> &Vec<Dir> {
         self.sub_ifds.get_or_init(|| {
             let mut ifds = Vec::new();
+            let mut visited = HashSet::new();
             if let Some(offsets) = self
                 .entry(exif::EXIF_TAG_SUB_IFDS)
                 .and_then(|entry| entry.value_array::<u32>(self.endian()))
@@ -796,6 +806,10 @@ impl Dir {
                         log::warn!("SubIFD with offset 0");
                         continue;
                     }
+                    if !visited.insert(offset) {
+                        log::error!("SubIFD at {offset} already read");
+                        continue;
+                    }
                     if let Ok(dir) = match self.endian() {
                         container::Endian::Little => {
                             let mut view = container.borrow_view_mut();
diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 57ce65b..24a742d 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -102,9 +102,7 @@ impl Entry {
 
     /// Return wether the entry is inline.
     pub fn is_inline(&self) -> bool {
-        let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
-        let data_size = exif::tag_unit_size(tag_type) * self.count as usize;
-        data_size <= 4
+        self.data_size() <= 4
     }
 
     /// The bytes for the value of unit size `size` at `index`.
@@ -144,10 +142,15 @@ impl Entry {
         &data[..std::cmp::min(data.len(), self.count as usize)]
     }
 
+    /// Size in bytes of the data of the entry, based on type and count.
+    pub(crate) fn data_size(&self) -> u64 {
+        let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
+        exif::tag_unit_size(tag_type) as u64 * self.count as u64
+    }
+
     /// monomorphic implementation of `load_data<E>`
     fn load_data_impl(&self, offset: u64, view: &mut View) -> Result<Vec<u8>> {
-        let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
-        let data_size = exif::tag_unit_size(tag_type) * self.count as usize;
+        let data_size = self.data_size() as usize;
         debug!("Loading data at {}: {} bytes", offset, data_size);
 
         view.seek(SeekFrom::Start(offset))?;
-- 
2.43.0


From 06801313486477b9fc94770ac47e655e45328b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 17/69] fix: the padding of an inline TIFF value isn't part of
 the value

---
 src/tiff/entry.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 24a742d..7b363e2 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -108,7 +108,7 @@ impl Entry {
     /// The bytes for the value of unit size `size` at `index`.
     fn unit_bytes(&self, size: usize, index: usize) -> Option<&[u8]> {
         let start = index.checked_mul(size)?;
-        self.data.as_slice().get(start..start.checked_add(size)?)
+        self.value_data().get(start..start.checked_add(size)?)
     }
 
     /// Set the entry as containing an offset.
@@ -142,6 +142,17 @@ impl Entry {
         &data[..std::cmp::min(data.len(), self.count as usize)]
     }
 
+    /// The data that are part of the value, based on type and count. It
+    /// doesn't include the padding of inline data.
+    fn value_data(&self) -> &[u8] {
+        let data = self.data.as_slice();
+        let size = match TagType::try_from(self.type_) {
+            Ok(TagType::Invalid) | Ok(TagType::Error_) | Err(_) => data.len(),
+            Ok(_) => self.data_size() as usize,
+        };
+        &data[..std::cmp::min(data.len(), size)]
+    }
+
     /// Size in bytes of the data of the entry, based on type and count.
     pub(crate) fn data_size(&self) -> u64 {
         let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
@@ -212,7 +223,7 @@ impl Entry {
                 return None;
             }
             return if T::is_array() {
-                self.data.as_slice().get(index as usize..)
+                self.value_data().get(index as usize..)
             } else {
                 self.unit_bytes(T::unit_size(), index as usize)
             }
-- 
2.43.0


From c8c343fcfedb2ce668d4e4a38ed3f8eebca63341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 18/69] fix: offsets in a Minolta maker note are relative to
 the TIFF header

---
 src/minolta.rs  | 1 -
 src/tiff/dir.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index ad34115..5c8d7be 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -197,7 +197,6 @@ impl RawFileImpl for MrwFile {
                     .ok_or(Error::NotFound)?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
-                    // e.data() is incorrect.
                     probe!(self.probe, "mrw.old_thumbnail", "true");
                     preview
                         .offset()
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index b878c1a..aa5ada0 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -461,7 +461,7 @@ impl Dir {
                         container,
                         container::Endian::Unset,
                         offset,
-                        offset,
+                        0,
                         &minolta::MNOTE_TAG_NAMES,
                     );
                 }
-- 
2.43.0


From 5d5b822be1663456951e81829cbfc7cd67ad9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 19/69] fix: a maker note that has its own byte order mark is
 read in that byte order

---
 src/pentax.rs         | 20 +++++++++-----------
 src/tiff/container.rs |  7 +++++--
 src/tiff/dir.rs       | 23 ++++++++++++++++++-----
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 79bbc3a..3202d8d 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -453,7 +453,7 @@ impl RawFileImpl for PefFile {
                     let user_crop = mnote
                         .entry(exif::MNOTE_PENTAX_IMAGEAREAOFFSET)
                         .and_then(|e| {
-                            let pt = e.value_array::<u16>(container.endian()).and_then(|a| {
+                            let pt = e.value_array::<u16>(mnote.endian()).and_then(|a| {
                                 if a.len() < 2 {
                                     return None;
                                 }
@@ -463,17 +463,15 @@ impl RawFileImpl for PefFile {
                                 })
                             })?;
                             let e = mnote.entry(exif::MNOTE_PENTAX_RAWIMAGESIZE)?;
-                            if let Some(sz) =
-                                e.value_array::<u16>(container.endian()).and_then(|a| {
-                                    if a.len() < 2 {
-                                        return None;
-                                    }
-                                    Some(Size {
-                                        width: a[0] as u32,
-                                        height: a[1] as u32,
-                                    })
+                            if let Some(sz) = e.value_array::<u16>(mnote.endian()).and_then(|a| {
+                                if a.len() < 2 {
+                                    return None;
+                                }
+                                Some(Size {
+                                    width: a[0] as u32,
+                                    height: a[1] as u32,
                                 })
-                            {
+                            }) {
                                 probe!(self.probe, "pef.user_crop", true);
                                 Some(Rect::new(pt, sz))
                             } else {
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index f2653cb..a9d90e9 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -187,17 +187,19 @@ impl Container {
         Ok(())
     }
 
-    /// Read the dir at the offset
+    /// Read the dir at the offset, in the byte order `endian`.
+    #[allow(clippy::too_many_arguments)]
     pub(crate) fn dir_at(
         &self,
         view: &mut View,
+        endian: container::Endian,
         offset: u32,
         base_offset: u32,
         t: IfdType,
         id: Option<&'static str>,
         tag_names: Option<&'static HashMap<u16, &'static str>>,
     ) -> Result<Dir> {
-        let mut dir = match *self.endian.borrow() {
+        let mut dir = match endian {
             container::Endian::Little => Dir::read::<LittleEndian>(view, offset, base_offset, t),
             container::Endian::Big => Dir::read::<BigEndian>(view, offset, base_offset, t),
             _ => {
@@ -249,6 +251,7 @@ impl Container {
                 } else {
                     self.dir_at(
                         &mut self.view.borrow_mut(),
+                        self.endian(),
                         dir_offset,
                         0,
                         t.0,
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index aa5ada0..515cb0a 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -80,6 +80,16 @@ pub struct Dir {
     sub_ifds: OnceCell<Vec<Dir>>,
 }
 
+/// The byte order from the mark in the header of a MakerNote. `Unset` if
+/// there is no mark: it is the byte order of the container.
+fn mnote_endian(mark: &[u8]) -> container::Endian {
+    match mark {
+        b"II" => container::Endian::Little,
+        b"MM" => container::Endian::Big,
+        _ => container::Endian::Unset,
+    }
+}
+
 impl Dir {
     pub(crate) fn iter(&self) -> super::Iterator {
         super::Iterator::new(self)
@@ -146,7 +156,7 @@ impl Dir {
                         return Dir::new_makernote(
                             b"Exif.Nikon\0",
                             container,
-                            container::Endian::Unset,
+                            mnote_endian(&data[10..12]),
                             offset + 18,
                             offset + 10,
                             &nikon::MNOTE_TAG_NAMES,
@@ -180,7 +190,7 @@ impl Dir {
                     return Dir::new_makernote(
                         b"Exif.Olympus2\0",
                         container,
-                        container::Endian::Unset,
+                        mnote_endian(&data[8..10]),
                         offset + 12,
                         offset,
                         &olympus::MNOTE_TAG_NAMES,
@@ -191,7 +201,7 @@ impl Dir {
                     return Dir::new_makernote(
                         b"Exif.Olympus2\0",
                         container,
-                        container::Endian::Unset,
+                        mnote_endian(&data[12..14]),
                         offset + 16,
                         offset,
                         &olympus::MNOTE_TAG_NAMES,
@@ -227,7 +237,7 @@ impl Dir {
                     return Dir::new_makernote(
                         b"Exif.Pentax\0",
                         container,
-                        container::Endian::Unset,
+                        mnote_endian(&data[4..6]),
                         offset + 6,
                         0,
                         &pentax::MNOTE_TAG_NAMES,
@@ -239,7 +249,7 @@ impl Dir {
                     return Dir::new_makernote(
                         b"Exif.Pentax\0",
                         container,
-                        container::Endian::Unset,
+                        mnote_endian(&data[8..10]),
                         offset + 10,
                         offset,
                         &pentax::MNOTE_TAG_NAMES,
@@ -674,6 +684,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         offset,
                         self.mnote_offset,
                         IfdType::Exif,
@@ -710,6 +721,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         offset,
                         self.mnote_offset,
                         IfdType::GpsInfo,
@@ -776,6 +788,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         val_offset,
                         self.mnote_offset,
                         IfdType::Other,
-- 
2.43.0


From a946b6d69712f7ccc28c8c553f0d1ee79e999d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 20/69] fix: byte order of an Apple maker note, and the id of
 the Leica5 one

---
 src/tiff/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 515cb0a..9c7ff49 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -350,7 +350,7 @@ impl Dir {
                             0x10 | // Leica X-U (Typ 113)
                             0x1a =>
                                 return Dir::new_makernote(
-                                    b"Leica5\0",
+                                    b"Exif.Leica5\0",
                                     container,
                                     container::Endian::Unset,
                                     offset + 8,
@@ -414,7 +414,7 @@ impl Dir {
                     return Dir::new_makernote(
                         b"Exif.Apple\0",
                         container,
-                        container::Endian::Unset,
+                        mnote_endian(&data[12..14]),
                         offset + 14,
                         offset,
                         &apple::MNOTE_TAG_NAMES,
-- 
2.43.0


From 9184a888531475d37706dad45f09447d1166528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 21/69] fix: the main and Exif directories of a JPEG file are
 the ones of its Exif data

---
 src/jpeg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 07fa8aa..d667a0d 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -117,8 +117,8 @@ impl RawFileImpl for JpegFile {
         self.container().ok()?;
         let container = self.container.get().unwrap();
         match ifd_type {
-            tiff::IfdType::Main | tiff::IfdType::Raw => None,
-            tiff::IfdType::Exif => container.exif().and_then(|exif| exif.directory(0)),
+            tiff::IfdType::Main => container.exif().and_then(|exif| exif.directory(0)),
+            tiff::IfdType::Exif => container.exif().and_then(|exif| exif.exif_dir()),
             tiff::IfdType::MakerNote => container.exif().and_then(|exif| exif.mnote_dir()),
             _ => None,
         }
-- 
2.43.0


From 9f7fed29d8bc6dcb2535d68ed926712e6bd4488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 22/69] fix: the metadata of a CR3 file can be iterated

---
 src/mp4/container.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index b07f9a4..330ddae 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -34,6 +34,7 @@ use crate::container::RawContainer;
 use crate::io::{View, Viewer};
 #[cfg(feature = "dump")]
 use crate::jpeg;
+use crate::metadata;
 use crate::mp4::parse as mp4parse;
 use crate::mp4::parse::craw;
 use crate::thumbnail;
@@ -105,6 +106,13 @@ impl container::RawContainer for Container {
     fn raw_type(&self) -> RawType {
         self.raw_type
     }
+
+    /// Return a dir metadata iterator: the directories of the first block.
+    fn dir_iterator(&self) -> metadata::Iterator {
+        self.metadata_block(0)
+            .map(|block| block.1.dirs().iter().into())
+            .unwrap_or_default()
+    }
 }
 
 impl Container {
-- 
2.43.0


From 17ad504f1bb24efe149a8660f1db9b439bc4d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 23/69] fix: the Exif thumbnail of a JPEG is located in its
 Exif data, with its own dimensions

---
 src/jpeg.rs           | 26 +++-----------------------
 src/jpeg/container.rs | 32 ++++++++++++++++++++++++++++++++
 src/panasonic.rs      | 26 +++-----------------------
 3 files changed, 38 insertions(+), 46 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index d667a0d..f45bfdf 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -34,12 +34,10 @@ use crate::container::RawContainer;
 use crate::io::Viewer;
 use crate::rawfile::RawFileHandleType;
 use crate::rawfile::ThumbnailStorage;
-use crate::thumbnail;
 use crate::tiff;
-use crate::tiff::{exif, Dir, Ifd};
+use crate::tiff::Dir;
 use crate::{
-    Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Result, Type,
-    TypeId,
+    Context, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Result, Type, TypeId,
 };
 
 #[derive(Debug)]
@@ -90,25 +88,7 @@ impl RawFileImpl for JpegFile {
             let mut thumbnails = vec![];
             self.container()?;
             let container = self.container.get().unwrap();
-            container.exif().and_then(|exif| {
-                let dir = exif.directory(1)?;
-                let len = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
-                let offset = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                // XXX this +12 should be "calculated"
-                let offset = offset + 12;
-                // XXX as a shortcut we assume it's Exif 160x120
-                thumbnails.push((
-                    160,
-                    thumbnail::ThumbDesc {
-                        width: 160,
-                        height: 120,
-                        data_type: DataType::Jpeg,
-                        data: thumbnail::Data::Offset(thumbnail::DataOffset { offset, len }),
-                    },
-                ));
-
-                Some(())
-            });
+            thumbnails.extend(container.exif_thumbnail());
             Ok(ThumbnailStorage::with_thumbnails(thumbnails))
         })
     }
diff --git a/src/jpeg/container.rs b/src/jpeg/container.rs
index 7e68b71..c65522f 100644
--- a/src/jpeg/container.rs
+++ b/src/jpeg/container.rs
@@ -30,7 +30,10 @@ use once_cell::unsync::OnceCell;
 use crate::container;
 use crate::io::{View, Viewer};
 use crate::metadata;
+use crate::thumbnail::{Data, ThumbDesc};
 use crate::tiff;
+use crate::tiff::exif;
+use crate::DataType;
 use crate::Dump;
 use crate::Type as RawType;
 
@@ -114,6 +117,35 @@ impl Container {
         self.exif().and_then(|container| container.mnote_dir())
     }
 
+    /// Get the Exif thumbnail, the JPEG from the second IFD of the
+    /// Exif data, and its dimension.
+    pub(crate) fn exif_thumbnail(&self) -> Option<(u32, ThumbDesc)> {
+        use container::RawContainer;
+
+        let exif = self.exif()?;
+        let dir = exif.directory(1)?;
+        let len = dir.uint_value(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)?;
+        let offset = dir.uint_value(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)?;
+        // The offset is relative to the Exif data.
+        let bytes = exif.load_buffer8(offset as u64, len as u64).ok()?;
+        let mut decoder = Decoder::new(bytes.as_slice());
+        let info = decoder.read_info().ok().and_then(|_| decoder.info());
+        // The Exif thumbnail is supposed to be 160x120
+        let (width, height) = info
+            .map(|info| (info.width as u32, info.height as u32))
+            .unwrap_or((160, 120));
+        let dim = std::cmp::max(width, height);
+        Some((
+            dim,
+            ThumbDesc {
+                width,
+                height,
+                data_type: DataType::Jpeg,
+                data: Data::Bytes(bytes),
+            },
+        ))
+    }
+
     pub fn exif(&self) -> Option<&tiff::Container> {
         self.exif
             .get_or_init(|| {
diff --git a/src/panasonic.rs b/src/panasonic.rs
index ec640b8..864abe5 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -855,31 +855,11 @@ impl RawFileImpl for Rw2File {
             if let Some(jpeg) = self.jpeg_preview() {
                 if let Some(jpeg_offset) = self.jpeg_data_offset() {
                     // The JPEG preview has a preview.
-                    jpeg.exif().and_then(|exif| {
-                        let dir = exif.directory(1)?;
-                        let len =
-                            dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
-                        let offset =
-                            dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                        // XXX this +12 should be "calculated"
-                        let offset = jpeg_offset.offset + offset + 12;
-                        // XXX as a shortcut we assume it's Exif 160x120
-                        thumbnails.push((
-                            160,
-                            thumbnail::ThumbDesc {
-                                width: 160,
-                                height: 120,
-                                data_type: DataType::Jpeg,
-                                data: thumbnail::Data::Offset(thumbnail::DataOffset {
-                                    offset,
-                                    len,
-                                }),
-                            },
-                        ));
+                    if let Some(thumbnail) = jpeg.exif_thumbnail() {
+                        thumbnails.push(thumbnail);
 
                         probe!(self.probe, "rw2.jpeg_preview.thumbnail", "true");
-                        Some(())
-                    });
+                    }
 
                     // The JPEG is a large preview. Get that too.
                     let width = jpeg.width() as u32;
-- 
2.43.0


From 87e626d082203ec8ca049b511bfd3da5655d4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 24/69] fix: the preview in a Leica6 maker note is listed

---
 src/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dng.rs b/src/dng.rs
index cb39ffc..3635e22 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -301,7 +301,7 @@ impl RawFileImpl for DngFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                if mnote.id() == b"Leica6\0" {
+                if mnote.id() == b"Exif.Leica6\0" {
                     // File with Leica6 MakerNote (Leica M Typ-240) have a
                     // larger preview in the MakerNote
                     mnote.entry(exif::MNOTE_LEICA_PREVIEW_IMAGE).map(|e| {
-- 
2.43.0


From 34abc866f9bb04c1e7584239f0229bbd047f78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 25/69] fix: previews with short strip tags or several strips

---
 src/tiff.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index ec6bd6f..6ed04e9 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -490,12 +490,14 @@ pub(crate) fn ifd_locate_thumbnail(
         let mut x = dir.uint_value(exif::EXIF_TAG_IMAGE_WIDTH).unwrap_or(0);
         let mut y = dir.uint_value(exif::EXIF_TAG_IMAGE_LENGTH).unwrap_or(0);
         let compression = dir.value::<u16>(exif::EXIF_TAG_COMPRESSION).unwrap_or(0);
+        // There can be several strips, and TIFF allows them to be Short.
         let mut byte_count = dir
-            .value::<u32>(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+            .uint_value_array(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+            .map(|counts| counts.iter().fold(0_u32, |acc, c| acc.saturating_add(*c)))
             .unwrap_or(0);
         let mut offset = 0;
         let mut got_it = false;
-        if let Some(v) = dir.value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS) {
+        if let Some(v) = dir.uint_value(exif::EXIF_TAG_STRIP_OFFSETS) {
             offset = v;
             got_it = true;
         }
-- 
2.43.0


From 935696d6550325188037ff81ed470dc39df9e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 26/69] fix: a preview that isn't a JPEG was listed with no
 dimensions

---
 src/tiff/container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index a9d90e9..e09bc09 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -346,6 +346,10 @@ impl Container {
         let width = jpeg.width() as u32;
         let height = jpeg.height() as u32;
         let dim = std::cmp::max(width, height);
+        if dim == 0 {
+            log::error!("No JPEG thumbnail at {offset}");
+            return Err(Error::NotFound);
+        }
         // "Olympus" MakerNote carries a 160 px thubnail we might already have.
         // We don't check it is the same.
         if !list.iter().any(|t| t.0 == dim) {
-- 
2.43.0


From 082d65bc1c51c666c04250c39517a9f99bdaf33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 27/69] fix: packed rows end on a byte, odd widths are unpacked

---
 src/decompress.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 1540e9b..f7a1c35 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -96,7 +96,8 @@ pub(crate) fn unpack_be12to16(
             "be12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // An odd number of samples ends with two bytes.
+    if (rest % 3) == 1 {
         log::error!("be12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "be12to16 incorrect rest for {compression:?}.",
@@ -124,6 +125,12 @@ pub(crate) fn unpack_be12to16(
         }
         src += pad;
     }
+    if (rest % 3) == 2 {
+        let i0 = input[src] as u16;
+        let i1 = input[src + 1] as u16;
+        out_data.push((i0 << 4) | (i1 >> 4));
+        written += 1;
+    }
     Ok(written)
 }
 
@@ -152,7 +159,8 @@ pub(crate) fn unpack_le12to16(
             "le12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // An odd number of samples ends with two bytes.
+    if (rest % 3) == 1 {
         log::error!("le12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "le12to16 incorrect rest for {compression:?}.",
@@ -179,9 +187,21 @@ pub(crate) fn unpack_le12to16(
         }
         src += pad;
     }
+    if (rest % 3) == 2 {
+        let b1 = input[src] as u16;
+        let b2 = input[src + 1] as u16;
+        out_data.push(((b2 & 0xf) << 8) | b1);
+        written += 1;
+    }
     Ok(written)
 }
 
+/// The length in bytes of a row of `width` packed samples. Rows end on
+/// a byte boundary.
+fn packed_row_len(width: u32, bpc: u64) -> usize {
+    ((width as u64 * bpc + 7) / 8) as usize
+}
+
 /// Unpack data at `offset` into a 16-bits buffer.
 pub(crate) fn unpack(
     container: &dyn RawContainer,
@@ -225,7 +245,7 @@ pub(crate) fn unpack_from_reader(
         compression
     );
     let block_size: usize = match bpc {
-        10 => width as usize / 4 * 5,
+        10 => packed_row_len(width, 10),
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
@@ -233,10 +253,10 @@ pub(crate) fn unpack_from_reader(
             {
                 (width as usize / 2 * 3) + width as usize / 10
             } else {
-                width as usize / 2 * 3
+                packed_row_len(width, 12)
             }
         }
-        14 => width as usize / 4 * 7,
+        14 => packed_row_len(width, 14),
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
-- 
2.43.0


From 9ae658e9830f74b2cc1f70ba8d8dea019e8079ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 28/69] fix: undecoded RAF data had 16 bytes that aren't in the
 file

---
 src/fujifilm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 8f992cc..964c729 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -524,6 +524,7 @@ impl RawFileImpl for RafFile {
                         .ok();
                     }
 
+                    raw.truncate(raw.len() - 16);
                     if let Some(rawbuffer) = rawbuffer {
                         RawImage::with_image_buffer(rawbuffer, DataType::Raw, mosaic)
                     } else {
-- 
2.43.0


From 9f42c0c73e1c9cdc254974565e36b00f4d6ec859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 29/69] fix: the second field of interlaced ORF was read past
 the strip

---
 src/olympus.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 0c722c8..9a57119 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -209,12 +209,23 @@ impl OrfFile {
         }
     }
 
+    /// The offset of the second field in interlaced data.
+    /// It seems to be 2048 bytes aligned.
+    fn interlaced_offset(width: usize, height: usize) -> usize {
+        let half = (height + 1) >> 1;
+        (((half * width * 3 / 2) >> 11) + 1) << 11
+    }
+
+    /// The offset of the raw data
+    fn raw_strip_offset(&self) -> Option<u32> {
+        self.ifd(IfdType::Raw)
+            .and_then(|cfa| cfa.uint_value(exif::EXIF_TAG_STRIP_OFFSETS))
+    }
+
     // Inspired from rawloader::decoders::packed::decode_12be_interlaced
     //  https://github.com/pedrocr/rawloader/blob/master/src/decoders/packed.rs#L182
     fn decode_12be_olympus_interlaced(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-        let half = (height + 1) >> 1;
-        // Interlaced data seems to be 2048 bytes aligned
-        let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
+        let interlaced_offset = Self::interlaced_offset(width, height);
         let interlaced = buf.get(interlaced_offset..).unwrap_or_default();
 
         let mut out: Vec<u16> = vec![0; width * height];
@@ -295,8 +306,19 @@ impl OrfFile {
                     // but SP565UZ is 3664 and interlaced.
                     if width < 3700 {
                         probe!(self.probe, "orf.decompress.interlaced", "true");
+                        // The gap before the second field isn't counted
+                        // in the strip: its end is past the end of the strip.
+                        let field_len = (h / 2) * w * 3 / 2;
+                        let len = Self::interlaced_offset(w, h) + field_len;
+                        let fields = self
+                            .raw_strip_offset()
+                            .and_then(|offset| {
+                                let container = self.container.get()?;
+                                container.load_buffer8(offset as u64, len as u64).ok()
+                            })
+                            .filter(|fields| fields.len() > data8.len());
                         Some(Self::decode_12be_olympus_interlaced(
-                            data8,
+                            fields.as_deref().unwrap_or(data8),
                             width as usize,
                             height as usize,
                         ))
-- 
2.43.0


From 9561fa701af49fd27651ce835028ea99adbb601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 30/69] fix: undecoded data were not returned for PEF

---
 src/pentax.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 3202d8d..7353f7d 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -441,7 +441,7 @@ impl RawFileImpl for PefFile {
         }
     }
 
-    fn load_rawdata(&self, _skip_decompress: bool) -> Result<RawImage> {
+    fn load_rawdata(&self, skip_decompress: bool) -> Result<RawImage> {
         self.container()?;
         let type_id = self.type_id()?;
         let container = self.container.get().unwrap();
@@ -536,7 +536,7 @@ impl RawFileImpl for PefFile {
                     "pef.compression",
                     &format!("{:?}", rawdata.compression())
                 );
-                if let Some(data8) = rawdata.data8() {
+                if let Some(data8) = rawdata.data8().filter(|_| !skip_decompress) {
                     let huffman = self
                         .ifd(tiff::IfdType::MakerNote)
                         .and_then(|mnote| mnote.entry(exif::MNOTE_PENTAX_HUFFMAN_TABLE))
-- 
2.43.0


From 1542f88fd3a108e91f8c7b3714acdc4c4cb23cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 31/69] fix: tables of strips can be short, uncompressed tiles
 and strips in any order

---
 src/tiff.rs           | 173 +++++++++++++++++++++++++++++++++++++-----
 src/tiff/exif/tags.rs |   2 +-
 2 files changed, 156 insertions(+), 19 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 6ed04e9..37832af 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -227,32 +227,35 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     let mut tile_bytes: Option<Vec<u32>> = None;
     let mut tile_offsets: Option<Vec<u32>> = None;
     let mut tile_size: Option<(u32, u32)> = None;
+    let mut strips: Vec<(u32, u32)> = vec![];
     let byte_len = dir
-        .value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS)
-        .and_then(|v| {
-            offset = v;
-            let entry = dir.entry(exif::EXIF_TAG_STRIP_BYTE_COUNTS).or_else(|| {
-                log::debug!("byte len not found");
-                // XXX this might trigger the or_else below
-                None
-            })?;
+        .uint_value_array(exif::EXIF_TAG_STRIP_OFFSETS)
+        .and_then(|offsets| {
+            offset = *offsets.first()?;
+            let counts = dir
+                .uint_value_array(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+                .or_else(|| {
+                    log::debug!("byte len not found");
+                    // XXX this might trigger the or_else below
+                    None
+                })?;
             // In case of overflow, we'll return None
-            entry
-                .value_array::<u32>(dir.endian())
-                .map(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))?
+            let sum = counts
+                .iter()
+                .try_fold(0_u32, |sum, &x| sum.checked_add(x))?;
+            if offsets.len() == counts.len() {
+                strips = std::iter::zip(offsets, counts).collect();
+            }
+            Some(sum)
         })
         .or_else(|| {
-            tile_bytes = dir
-                .entry(exif::TIFF_TAG_TILE_BYTECOUNTS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
+            tile_bytes = dir.uint_value_array(exif::TIFF_TAG_TILE_BYTECOUNTS);
             // In case of overflow, we'll return 0 via the unwrap().
             let tile_bytes_total = tile_bytes
                 .as_ref()
                 .and_then(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))
                 .unwrap_or(0);
-            tile_offsets = dir
-                .entry(exif::TIFF_TAG_TILE_OFFSETS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
+            tile_offsets = dir.uint_value_array(exif::TIFF_TAG_TILE_OFFSETS);
             if tile_bytes.is_none() || tile_offsets.is_none() {
                 log::error!("TIFF: no usable strips or tiles");
                 return None;
@@ -341,14 +344,32 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         return Err(Error::FormatError);
     }
     let actual_bpc = bpc;
+    // Tiles are all complete, even if they go past the edge.
+    let stored_count = match (tile_size, &tile_offsets) {
+        (Some((w, h)), Some(offsets)) => (w as u64 * h as u64).saturating_mul(offsets.len() as u64),
+        _ => pixel_count as u64,
+    };
     if (bpc == 12 || bpc == 14)
         && (compression == Compression::None)
-        && byte_len == (pixel_count * 2)
+        && byte_len as u64 == stored_count.saturating_mul(2)
     {
         // it's 12 or 14 bpc, but we have 16 bpc data.
         log::debug!("setting bpc from {} to 16", bpc);
         bpc = 16;
     }
+    if compression == Compression::LJpeg && strips.len() > 1 {
+        // Each strip is its own JPEG: they are tiles as wide as the image.
+        if let Some(rows) = dir.uint_value(exif::EXIF_TAG_ROWS_PER_STRIP) {
+            let (offsets, counts) = strips.iter().copied().unzip();
+            tile_offsets = Some(offsets);
+            tile_bytes = Some(counts);
+            tile_size = Some((x, rows.min(y)));
+        }
+    }
+    // Strips are usually one after the other.
+    let contiguous = strips
+        .windows(2)
+        .all(|s| s[0].0.checked_add(s[0].1) == Some(s[1].0));
     let mut rawdata = if data_type == DataType::CompressedRaw {
         if tile_bytes.is_some() && tile_offsets.is_some() {
             let tile_bytes = tile_bytes.as_ref().unwrap();
@@ -388,6 +409,33 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         }
+    } else if let (Some((tile_w, tile_h)), Some(offsets), Some(counts)) =
+        (tile_size, &tile_offsets, &tile_bytes)
+    {
+        let unpack = |data: &[u8]| unpack_samples(data, tile_w, tile_h, bpc, compression, endian);
+        let data = load_tiles(container, (x, y), (tile_w, tile_h), offsets, counts, unpack)?;
+        RawImage::with_data16(
+            x,
+            y,
+            actual_bpc,
+            data_type,
+            data,
+            mosaic_pattern.unwrap_or_default(),
+        )
+    } else if !contiguous {
+        let mut data = vec![];
+        for (offset, len) in strips {
+            data.extend(container.load_buffer8(offset as u64, len as u64)?);
+        }
+        let data = unpack_samples(&data, x, y, bpc, compression, endian)?;
+        RawImage::with_data16(
+            x,
+            y,
+            actual_bpc,
+            data_type,
+            data,
+            mosaic_pattern.unwrap_or_default(),
+        )
     } else if bpc == 16 {
         let data = if endian == Endian::Big {
             container.load_buffer16_be(offset as u64, byte_len as u64)?
@@ -452,6 +500,95 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     Ok(rawdata)
 }
 
+/// Unpack the uncompressed samples of a `width` x `height` area.
+fn unpack_samples(
+    mut data: &[u8],
+    width: u32,
+    height: u32,
+    bpc: u16,
+    compression: Compression,
+    endian: Endian,
+) -> Result<Vec<u16>> {
+    match bpc {
+        8 => Ok(data.iter().map(|v| *v as u16).collect()),
+        10 | 12 | 14 => {
+            let len = data.len();
+            decompress::unpack_from_reader(&mut data, width, height, bpc, compression, len, endian)
+        }
+        16 => Ok(data
+            .chunks_exact(2)
+            .map(|v| {
+                if endian == Endian::Big {
+                    u16::from_be_bytes([v[0], v[1]])
+                } else {
+                    u16::from_le_bytes([v[0], v[1]])
+                }
+            })
+            .collect()),
+        _ => {
+            log::error!("Invalid RAW format, unsupported bpc {}", bpc);
+            Err(Error::InvalidFormat)
+        }
+    }
+}
+
+/// Load an image of `size` from uncompressed tiles.
+fn load_tiles<F>(
+    container: &Container,
+    size: (u32, u32),
+    tile_size: (u32, u32),
+    offsets: &[u32],
+    counts: &[u32],
+    unpack: F,
+) -> Result<Vec<u16>>
+where
+    F: Fn(&[u8]) -> Result<Vec<u16>>,
+{
+    let (width, height) = (size.0 as usize, size.1 as usize);
+    let (tile_w, tile_h) = (tile_size.0 as usize, tile_size.1 as usize);
+    let tiles: Vec<(u32, u32)> = std::iter::zip(offsets, counts)
+        .map(|(offset, count)| (*offset, *count))
+        .collect();
+    let across = if tile_w == 0 {
+        0
+    } else {
+        (width + tile_w - 1) / tile_w
+    };
+    if across == 0 || tile_h == 0 || across * ((height + tile_h - 1) / tile_h) > tiles.len() {
+        log::error!("Not enough tiles of size {tile_w}x{tile_h} for the image");
+        return Err(Error::FormatError);
+    }
+    let mut rows: Vec<u16> = vec![];
+    for (top, tiles) in tiles.chunks(across).enumerate() {
+        let first_row = top * tile_h;
+        if first_row >= height {
+            break;
+        }
+        let row_count = std::cmp::min(tile_h, height - first_row);
+        let tiles = tiles
+            .iter()
+            .map(|(offset, len)| {
+                let data = container.load_buffer8(*offset as u64, *len as u64)?;
+                let samples = unpack(&data)?;
+                if samples.len() < tile_w * row_count {
+                    log::error!("Not enough data in the tile at {offset}");
+                    return Err(Error::FormatError);
+                }
+                Ok(samples)
+            })
+            .collect::<Result<Vec<_>>>()?;
+        for row in 0..row_count {
+            for (n, tile) in tiles.iter().enumerate() {
+                // The last tile can be wider than what's left.
+                let len = std::cmp::min(tile_w, width - n * tile_w);
+                rows.extend_from_slice(&tile[row * tile_w..][..len]);
+            }
+        }
+    }
+
+    Ok(rows)
+}
+
 /// Get the thumbnails out of a TIFF
 pub(crate) fn tiff_thumbnails(container: &Container) -> Vec<(u32, thumbnail::ThumbDesc)> {
     let mut thumbnails = Vec::new();
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index 4d28f5c..8b9ea6b 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -37,7 +37,7 @@ pub const EXIF_TAG_MODEL: u16 = 0x0110;
 pub const EXIF_TAG_STRIP_OFFSETS: u16 = 0x0111;
 pub const EXIF_TAG_ORIENTATION: u16 = 0x0112;
 pub const _EXIF_TAG_SAMPLES_PER_PIXEL: u16 = 0x0115;
-pub const _EXIF_TAG_ROWS_PER_STRIP: u16 = 0x0116;
+pub const EXIF_TAG_ROWS_PER_STRIP: u16 = 0x0116;
 pub const EXIF_TAG_STRIP_BYTE_COUNTS: u16 = 0x0117;
 pub const _EXIF_TAG_X_RESOLUTION: u16 = 0x011a;
 pub const _EXIF_TAG_Y_RESOLUTION: u16 = 0x011b;
-- 
2.43.0


From acfc9284ec0f4a375e8aed74d3bc4d938e473e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 32/69] fix: the last strip of a lossless JPEG raw only has the
 rows that are left

---
 src/decompress/tiled.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index 1376171..22c9e32 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -109,6 +109,8 @@ impl TiledLJpeg {
                     return Err(Error::FormatError);
                 }
             }
+            let image_width = rawdata.width() as u64;
+            let image_height = rawdata.height() as u64;
             let dec_tiles: Vec<Option<Tile>> = tiles
                 .par_iter()
                 .map(|tile| {
@@ -124,7 +126,8 @@ impl TiledLJpeg {
                         )
                         .ok()
                 })
-                .map(|tile| {
+                .enumerate()
+                .map(|(index, tile)| {
                     tile.map(|mut tile| {
                         if let Some(tile_size) = tile_size {
                             tile.u_width = tile_size.0;
@@ -133,7 +136,21 @@ impl TiledLJpeg {
                         tile
                     })
                     .filter(|tile| {
-                        tile.buf.len() as u64 >= tile.u_width as u64 * tile.u_height as u64
+                        // The last strips only have the rows that are left.
+                        let rows = match tile_size {
+                            Some((tile_width, tile_height)) => {
+                                let (tile_width, tile_height) =
+                                    (tile_width as u64, tile_height as u64);
+                                // An empty image has no tile across.
+                                let across =
+                                    std::cmp::max((image_width + tile_width - 1) / tile_width, 1);
+                                let first_row = index as u64 / across * tile_height;
+                                image_height.saturating_sub(first_row)
+                            }
+                            None => tile.u_height as u64,
+                        };
+                        let rows = std::cmp::min(rows, tile.u_height as u64);
+                        tile.buf.len() as u64 >= tile.u_width as u64 * rows
                     })
                 })
                 .collect();
-- 
2.43.0


From 1d768b541c23e4788349c5c97365f56e4abe6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 33/69] fix: slices of a CR2 with four components of half the
 height

---
 src/decompress/ljpeg.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index ce2bbb1..c73f92e 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -204,16 +204,6 @@ impl LJpeg {
             ));
         }
         let bpc = dc_info.data_precision;
-        let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
-            dc_info.image_width as u32 * dc_info.num_components as u32,
-            dc_info.image_height as u32,
-            self.slices.clone().as_deref(),
-        );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
@@ -256,6 +246,18 @@ impl LJpeg {
                 )
             }
         };
+        // The slices are those of the image.
+        let (buffer_width, buffer_height) = if tiled {
+            (
+                dc_info.image_width as u32 * dc_info.num_components as u32,
+                dc_info.image_height as u32,
+            )
+        } else {
+            (width, height)
+        };
+        let mut output: SlicedBuffer<ComponentType> =
+            SlicedBuffer::new(buffer_width, buffer_height, self.slices.clone().as_deref());
+        output.reserve(buffer_width as usize * buffer_height as usize);
         // XXX RawImage::set_slices?
         self.decoder_struct_init(&mut dc_info)?;
         self.huff_decoder_init(&mut dc_info, &mut bit_reader)?;
-- 
2.43.0


From ad9b40e89077f05b1a0d96a084d3dff2bd4129af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 34/69] fix: lossless NEF decoded to zeros, tables of 14 bits
 NEF, the split rows

---
 src/nikon.rs              |  39 +++++++--
 src/nikon/diffiterator.rs | 177 ++++++++++++++++++++++++++++++--------
 2 files changed, 172 insertions(+), 44 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 99a40c7..95aef0f 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -175,14 +175,18 @@ struct CompressionInfo {
     vpred: [[u16; 2]; 2],
     curve: Vec<u16>,
     huffman: Option<&'static [huffman::HuffmanNode]>,
+    /// The row from which another table is used.
+    split: Option<(usize, &'static [huffman::HuffmanNode])>,
 }
 
 impl CompressionInfo {
     fn new() -> Self {
         Self {
             vpred: [[0; 2]; 2],
-            curve: vec![0; 0x8000],
+            // Without a curve the values are unchanged.
+            curve: (0..0x8000).collect(),
             huffman: None,
+            split: None,
         }
     }
 }
@@ -313,10 +317,10 @@ impl NefFile {
                     "nef.compression_curve.header1",
                     &format!("0x{header1:x}")
                 );
-                if header0 == 0x49 {
+                if header0 == 0x49 || header1 == 0x58 {
                     // some interesting stuff at 2110
                     // XXX we need to implement this.
-                    log::warn!("NEF: header0 is 0x49 - case not yet handled.");
+                    log::warn!("NEF: headers {header0:x} {header1:x} - case not yet handled.");
                     view.seek(SeekFrom::Current(2110))?;
                 }
 
@@ -383,8 +387,18 @@ impl NefFile {
                             / step) as u16;
                     }
                     probe!(self.probe, "nef.compression_curve.computed", "true");
-                    // split flag is at offset 562.
-                    // XXX
+                    // The row of the split is at offset 562.
+                    view.seek(SeekFrom::Start(pos as u64 + 562))?;
+                    let split = view.read_endian_u16(container.endian()).unwrap_or(0);
+                    if split != 0 {
+                        probe!(self.probe, "nef.compression_curve.split", split);
+                        let table: &[huffman::HuffmanNode] = if bpc == 12 {
+                            &diffiterator::LOSSY_12BIT_SPLIT
+                        } else {
+                            &diffiterator::LOSSY_14BIT_SPLIT
+                        };
+                        curve.split = Some((split as usize, table));
+                    }
                 } else if header0 != 0x46 && nelems <= 0x4001 {
                     let num_read =
                         container.read_u16_array(&mut view, &mut curve.curve, nelems as usize)?;
@@ -398,6 +412,10 @@ impl NefFile {
                     probe!(self.probe, "nef.compression_curve.direct", "true");
                 }
 
+                if ceiling == 0 {
+                    log::error!("NEF: the curve is empty");
+                    return Err(Error::FormatError);
+                }
                 let black = curve.curve[0];
                 let white = curve.curve[ceiling as usize - 1];
                 for i in ceiling..0x8000 {
@@ -436,7 +454,12 @@ impl NefFile {
 
                 // The dimensions aren't to be trusted: there could be less data.
                 let mut new_data = Vec::new();
-                for _ in 0..rows {
+                for row in 0..rows {
+                    if let Some((split, table)) = curve.split {
+                        if row == split {
+                            iter.set_table(table);
+                        }
+                    }
                     for j in 0..raw_columns {
                         let t = iter.get().map_err(|err| {
                             log::error!("Error get");
@@ -444,7 +467,9 @@ impl NefFile {
                         })?;
                         if j < columns {
                             let shift: u16 = 16 - rawdata.bpc();
-                            new_data.push(curve.curve[t as usize & 0x3fff] << shift);
+                            // The prediction can go slightly out of range.
+                            let t = (t as i16).clamp(0, 0x3fff);
+                            new_data.push(curve.curve[t as usize] << shift);
                         }
                     }
                 }
diff --git a/src/nikon/diffiterator.rs b/src/nikon/diffiterator.rs
index 69567c5..21001ed 100644
--- a/src/nikon/diffiterator.rs
+++ b/src/nikon/diffiterator.rs
@@ -75,44 +75,44 @@ pub const LOSSY_12BIT: [HuffmanNode; 27] = [
 // 101             8
 // 1100            3
 // 1101            9
-// 11100           2
-// 11101           1
-// 111100          0
-// 111101          10
-// 111110          11
-// 1111110         12
-// 11111110        13
-// 11111111        14
+// 1110            2
+// 11110           1
+// 111110          0
+// 1111110         10
+// 11111110        11
+// 111111110       12
+// 1111111110      13
+// 1111111111      14
 pub const LOSSY_14BIT: [HuffmanNode; 29] = [
-    /* 0  root     */ (false, 6),
-    /* 1  0        */ (false, 3),
-    /* 2  00       */ (true, 5),
-    /* 3  01       */ (false, 5),
-    /* 4  010      */ (true, 6),
-    /* 5  011      */ (true, 4),
-    /* 6  1        */ (false, 10),
-    /* 7  10       */ (false, 9),
-    /* 8  100      */ (true, 7),
-    /* 9  101      */ (true, 8),
-    /* 10 11       */ (false, 14),
-    /* 11 110      */ (false, 13),
-    /* 12 1100     */ (true, 3),
-    /* 13 1101     */ (true, 9),
-    /* 14 111      */ (false, 18),
-    /* 15 1110     */ (false, 17),
-    /* 16 11100    */ (true, 2),
-    /* 17 11101    */ (true, 1),
-    /* 18 1111     */ (false, 22),
-    /* 19 11110    */ (false, 21),
-    /* 20 111100   */ (true, 0),
-    /* 21 111101   */ (true, 10),
-    /* 22 11111    */ (false, 24),
-    /* 23 111110   */ (true, 11),
-    /* 24 111111   */ (false, 26),
-    /* 25 1111110  */ (true, 12),
-    /* 26 1111111  */ (false, 28),
-    /* 27 11111110 */ (true, 13),
-    /* 28 11111111 */ (true, 14),
+    /* 0  root       */ (false, 6),
+    /* 1  0          */ (false, 3),
+    /* 2  00         */ (true, 5),
+    /* 3  01         */ (false, 5),
+    /* 4  010        */ (true, 6),
+    /* 5  011        */ (true, 4),
+    /* 6  1          */ (false, 10),
+    /* 7  10         */ (false, 9),
+    /* 8  100        */ (true, 7),
+    /* 9  101        */ (true, 8),
+    /* 10 11         */ (false, 14),
+    /* 11 110        */ (false, 13),
+    /* 12 1100       */ (true, 3),
+    /* 13 1101       */ (true, 9),
+    /* 14 111        */ (false, 16),
+    /* 15 1110       */ (true, 2),
+    /* 16 1111       */ (false, 18),
+    /* 17 11110      */ (true, 1),
+    /* 18 11111      */ (false, 20),
+    /* 19 111110     */ (true, 0),
+    /* 20 111111     */ (false, 22),
+    /* 21 1111110    */ (true, 10),
+    /* 22 1111111    */ (false, 24),
+    /* 23 11111110   */ (true, 11),
+    /* 24 11111111   */ (false, 26),
+    /* 25 111111110  */ (true, 12),
+    /* 26 111111111  */ (false, 28),
+    /* 27 1111111110 */ (true, 13),
+    /* 28 1111111111 */ (true, 14),
 ];
 
 // 00              7
@@ -162,6 +162,99 @@ pub const LOSSLESS_14BIT: [HuffmanNode; 29] = [
     /* 28 11111111 */ (true, 14),
 ];
 
+// After the split row
+// 00              0x39
+// 010             0x5a
+// 011             0x38
+// 100             0x27
+// 101             0x16
+// 110             5
+// 1110            4
+// 11110           3
+// 111110          2
+// 1111110         1
+// 11111110        0
+// 111111110       11
+// 1111111110      12
+// 1111111111      12
+pub const LOSSY_12BIT_SPLIT: [HuffmanNode; 27] = [
+    /* 0  root       */ (false, 6),
+    /* 1  0          */ (false, 3),
+    /* 2  00         */ (true, 0x39),
+    /* 3  01         */ (false, 5),
+    /* 4  010        */ (true, 0x5a),
+    /* 5  011        */ (true, 0x38),
+    /* 6  1          */ (false, 10),
+    /* 7  10         */ (false, 9),
+    /* 8  100        */ (true, 0x27),
+    /* 9  101        */ (true, 0x16),
+    /* 10 11         */ (false, 12),
+    /* 11 110        */ (true, 5),
+    /* 12 111        */ (false, 14),
+    /* 13 1110       */ (true, 4),
+    /* 14 1111       */ (false, 16),
+    /* 15 11110      */ (true, 3),
+    /* 16 11111      */ (false, 18),
+    /* 17 111110     */ (true, 2),
+    /* 18 111111     */ (false, 20),
+    /* 19 1111110    */ (true, 1),
+    /* 20 1111111    */ (false, 22),
+    /* 21 11111110   */ (true, 0),
+    /* 22 11111111   */ (false, 24),
+    /* 23 111111110  */ (true, 11),
+    /* 24 111111111  */ (false, 26),
+    /* 25 1111111110 */ (true, 12),
+    /* 26 1111111111 */ (true, 12),
+];
+
+// After the split row
+// 00              8
+// 010             0x5c
+// 011             0x4b
+// 100             0x3a
+// 101             0x29
+// 110             7
+// 1110            6
+// 11110           5
+// 111110          4
+// 1111110         3
+// 11111110        2
+// 111111110       1
+// 1111111110      0
+// 11111111110     13
+// 11111111111     14
+pub const LOSSY_14BIT_SPLIT: [HuffmanNode; 29] = [
+    /* 0  root        */ (false, 6),
+    /* 1  0           */ (false, 3),
+    /* 2  00          */ (true, 8),
+    /* 3  01          */ (false, 5),
+    /* 4  010         */ (true, 0x5c),
+    /* 5  011         */ (true, 0x4b),
+    /* 6  1           */ (false, 10),
+    /* 7  10          */ (false, 9),
+    /* 8  100         */ (true, 0x3a),
+    /* 9  101         */ (true, 0x29),
+    /* 10 11          */ (false, 12),
+    /* 11 110         */ (true, 7),
+    /* 12 111         */ (false, 14),
+    /* 13 1110        */ (true, 6),
+    /* 14 1111        */ (false, 16),
+    /* 15 11110       */ (true, 5),
+    /* 16 11111       */ (false, 18),
+    /* 17 111110      */ (true, 4),
+    /* 18 111111      */ (false, 20),
+    /* 19 1111110     */ (true, 3),
+    /* 20 1111111     */ (false, 22),
+    /* 21 11111110    */ (true, 2),
+    /* 22 11111111    */ (false, 24),
+    /* 23 111111110   */ (true, 1),
+    /* 24 111111111   */ (false, 26),
+    /* 25 1111111110  */ (true, 0),
+    /* 26 1111111111  */ (false, 28),
+    /* 27 11111111110 */ (true, 13),
+    /* 28 11111111111 */ (true, 14),
+];
+
 pub(super) struct DiffIterator<'a> {
     decoder: HuffmanDecoder,
     bitreader: BitReader<'a>,
@@ -175,6 +268,11 @@ impl<'a> DiffIterator<'a> {
         }
     }
 
+    /// Change the huffman table.
+    pub fn set_table(&mut self, table: &'static [HuffmanNode]) {
+        self.decoder = HuffmanDecoder::new(table);
+    }
+
     pub fn get(&mut self) -> Result<i32> {
         let t = self.decoder.decode(&mut self.bitreader)?;
         let len = t & 15;
@@ -225,6 +323,11 @@ impl<'a> CfaIterator<'a> {
         }
     }
 
+    /// Change the huffman table, for the rows after the split.
+    pub fn set_table(&mut self, table: &'static [HuffmanNode]) {
+        self.diffs.set_table(table);
+    }
+
     pub fn get(&mut self) -> Result<u16> {
         let diff = self.diffs.get()?;
         let ret = if self.column < 2 {
-- 
2.43.0


From 5d710d78a4593c4d2157b3e53721619e40846369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 35/69] fix: PEF with odd widths or non canonical tables, and
 their last pixels

---
 src/pentax/decompress.rs | 124 ++++++++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 55 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..ce61bdc 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 const DECODE_CACHE_BITS: u32 = 13;
 
@@ -51,37 +51,15 @@ pub(super) fn decompress(
 
         cursor.consume(12);
 
-        let mut v0 = [0_u32; 16];
-        for value in v0.iter_mut().take(depth) {
-            *value = endian.read_u16_from(&mut cursor)? as u32;
+        let mut codes = [0_u16; 16];
+        for code in codes.iter_mut().take(depth) {
+            *code = endian.read_u16_from(&mut cursor)?;
         }
 
-        let mut v1 = [0_u32; 16];
         let pos = cursor.position() as usize;
-        for (i, value) in huff[pos..].iter().enumerate().take(depth) {
-            v1[i] = *value as u32;
-        }
-
-        // Calculate codes and store bitcounts
-        let mut v2: [u32; 16] = [0; 16];
-        for c in 0..depth {
-            v2[c] = v0[c] >> (12 - v1[c]);
-            htable.bits[v1[c] as usize] += 1;
-        }
+        let lengths = huff.get(pos..pos + depth).ok_or(Error::UnexpectedEOF)?;
 
-        // Find smallest
-        for i in 0..depth {
-            let mut sm_val: u32 = 0xfffffff;
-            let mut sm_num: u32 = 0xff;
-            for (j, value) in v2.iter().enumerate().take(depth) {
-                if *value <= sm_val {
-                    sm_num = j as u32;
-                    sm_val = *value;
-                }
-            }
-            htable.huffval[i] = sm_num;
-            v2[sm_num as usize] = 0xffffffff;
-        }
+        htable.set_codes(&codes[..depth], lengths)?;
     } else {
         // Initialize with legacy data
         let pentax_tree: [u8; 29] = [
@@ -96,28 +74,28 @@ pub(super) fn decompress(
         for i in 0..acc {
             htable.huffval[i] = pentax_tree[i + 16] as u32;
         }
+        htable.initialize()?;
     }
 
-    htable.initialize()?;
-
     let mut pump = BitPumpMSB::new(src);
-    let mut pred_up1: [i32; 2] = [0, 0];
-    let mut pred_up2: [i32; 2] = [0, 0];
-    let mut pred_left1: i32;
-    let mut pred_left2: i32;
-
-    for row in 0..height {
-        pred_up1[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_up2[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_left1 = pred_up1[row & 1];
-        pred_left2 = pred_up2[row & 1];
-        out[row * width] = pred_left1 as u16;
-        out[row * width + 1] = pred_left2 as u16;
-        for col in (2..width).step_by(2) {
-            pred_left1 += htable.huff_decode(&mut pump)?;
-            pred_left2 += htable.huff_decode(&mut pump)?;
-            out[row * width + col] = pred_left1 as u16;
-            out[row * width + col + 1] = pred_left2 as u16;
+    // The predictor for the first columns of the even and odd rows.
+    let mut pred_up: [[i32; 2]; 2] = [[0, 0], [0, 0]];
+
+    if width == 0 {
+        return Ok(out);
+    }
+    for (row, line) in out.chunks_exact_mut(width).enumerate() {
+        let mut pred_left = pred_up[row & 1];
+        for (col, value) in line.iter_mut().enumerate() {
+            let diff = htable.huff_decode(&mut pump)?;
+            pred_left[col & 1] = pred_left[col & 1].wrapping_add(diff);
+            if col < 2 {
+                pred_up[row & 1][col] = pred_left[col];
+            }
+            *value = pred_left[col & 1] as u16;
+        }
+        if pump.is_exhausted() {
+            return Err(Error::UnexpectedEOF);
         }
     }
     Ok(out)
@@ -169,7 +147,39 @@ impl HuffTable {
             }
         }
 
-        // Create the decode cache by running the slow code over all the possible
+        self.initialize_cache();
+
+        Ok(())
+    }
+
+    /// Set the table from the `codes`, left aligned on 12 bits, and their
+    /// `lengths`. The code at index `n` is for a difference of `n` bits.
+    fn set_codes(&mut self, codes: &[u16], lengths: &[u8]) -> Result<()> {
+        const MAX_LENGTH: u8 = 12;
+
+        self.nbits = MAX_LENGTH as u32;
+        // A code not in the table doesn't have a difference.
+        self.hufftable = vec![(MAX_LENGTH, 0); 1 << self.nbits];
+        for (n, (code, length)) in codes.iter().zip(lengths).enumerate() {
+            if *length == 0 || *length > MAX_LENGTH {
+                return Err(Error::Decompression(format!(
+                    "Invalid huffman code length {length}"
+                )));
+            }
+            let count = 1_usize << (MAX_LENGTH - length);
+            self.hufftable
+                .get_mut(*code as usize..*code as usize + count)
+                .ok_or_else(|| Error::Decompression(format!("Invalid huffman code {code}")))?
+                .fill((*length, n as u8));
+        }
+        self.initialize_cache();
+
+        Ok(())
+    }
+
+    /// Create the decode cache.
+    fn initialize_cache(&mut self) {
+        // Done by running the slow code over all the possible
         // values DECODE_CACHE_BITS wide
         let mut pump = MockPump::default();
         let mut i = 0;
@@ -184,8 +194,6 @@ impl HuffTable {
                 break;
             }
         }
-
-        Ok(())
     }
 
     pub(super) fn huff_decode(&self, pump: &mut dyn BitPump) -> Result<i32> {
@@ -292,17 +300,23 @@ impl<'a> BitPumpMSB<'a> {
             nbits: 0,
         }
     }
+
+    /// Whether more bits than available were consumed.
+    fn is_exhausted(&self) -> bool {
+        self.pos as u64 * 8 - self.nbits as u64 > self.buffer.len() as u64 * 8
+    }
 }
 
 impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
-            } else {
-                Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
-            };
+            // Past the end, the bits are zeros.
+            let mut bytes = [0_u8; 4];
+            let rest = self.buffer.get(self.pos..).unwrap_or_default();
+            let len = std::cmp::min(rest.len(), bytes.len());
+            bytes[..len].copy_from_slice(&rest[..len]);
+            let inbits = u32::from_be_bytes(bytes) as u64;
             self.bits = (self.bits << 32) | inbits;
             self.pos += 4;
             self.nbits += 32;
-- 
2.43.0


From 1234190d2cd97d46ccfe8efd96fb29e9025f70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 36/69] fix: CRW with low bits is 12 bits

---
 src/canon/crw.rs            | 6 +++---
 src/canon/crw/decompress.rs | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index dfd5180..43d59e2 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -44,8 +44,8 @@ use crate::tiff;
 use crate::tiff::exif;
 use crate::tiff::Dir;
 use crate::{
-    Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect, Result,
-    Size, Type, TypeId,
+    Bitmap, Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect,
+    Result, Size, Type, TypeId,
 };
 
 use super::matrices::MATRICES;
@@ -399,7 +399,7 @@ impl RawFileImpl for CrwFile {
                                 decompressor
                                     .decompress(&mut view)
                                     .map(|mut rawdata| {
-                                        let bpc = 10_u32;
+                                        let bpc = rawdata.bpc() as u32;
                                         let (black, white) = MATRICES
                                             .iter()
                                             .find(|m| m.camera == type_id)
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index a6bbad2..63b004a 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -329,7 +329,8 @@ impl Decompress {
         Ok(RawImage::with_data16(
             self.width,
             self.height,
-            10,
+            // There are two low bits in addition to the 10 bits.
+            if lowbits != 0 { 12 } else { 10 },
             DataType::Raw,
             data,
             Pattern::default(),
-- 
2.43.0


From 44e61e74e1892026c956fa2452e294871d2230b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 37/69] fix: compressed RAF: the pattern is indexed by column
 and row

---
 src/fujifilm/decompress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..38ba897 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -549,7 +549,7 @@ impl CompressedBlock {
         let cfa_height = strip.cfa.height();
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
-                let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
+                let line_idx = match strip.cfa[(pixel_count % cfa_width, row_count % cfa_height)] {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
-- 
2.43.0


From 6c3dbc9b4f423635d45ab5d44fabc3686ece0fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 38/69] fix: malformed compressed RAF data is an error, and the
 end of the data isn't

---
 src/decompress/bit_reader.rs |   6 +-
 src/fujifilm/decompress.rs   | 210 ++++++++++++++++++-----------------
 2 files changed, 112 insertions(+), 104 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 969eb09..01e17d3 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -57,7 +57,11 @@ pub(crate) trait BitReader {
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            let bits = match self.peek(NUM_BITS as u8) {
+                Ok(bits) => (bits << 1) | 0x1,
+                // There isn't enough bits: reading the next one will fail.
+                Err(_) => break,
+            };
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 38ba897..ad1f8f8 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -212,6 +212,7 @@ impl Header {
       || self.block_size != 0x300
       || self.raw_rounded_width < self.block_size
       || self.raw_rounded_width % self.block_size != 0
+      || self.raw_rounded_width < self.raw_width
       || self.raw_rounded_width - self.raw_width >= self.block_size
       || self.blocks_in_row > 0x10
       || self.blocks_in_row == 0
@@ -234,19 +235,15 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
-        let mut pump = if self.offset + self.size == src.len() {
-            let cursor = std::io::Cursor::new(&src[self.offset..]);
-            BitReaderBe32::new(cursor)
-        } else {
-            let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
-            BitReaderBe32::new(cursor)
-        };
+        let strip_data = src
+            .get(self.offset..self.offset + self.size)
+            .ok_or(Error::UnexpectedEOF)?;
+        // The bit reader looks past the last bits.
+        let mut pump = BitReaderBe32::new(strip_data.chain(&[0_u8; 16][..]));
 
         let mtable = [
             (XT_LINE_R0, XT_LINE_R3),
@@ -289,9 +286,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -321,14 +318,11 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
-/// We need a bit bigger buffer here, because the buffer is divided
-/// into multiple strips and each strip is feed into a BitReader.
-/// Each reader needs a litte bit more overhead at the end.
-/// For the final strip, we need the extra bytes from the buffer
-/// to prevent out-of-range errors in BitReader.
 pub(super) fn decompress_fuji(
     buf: &[u8],
     width: usize,
@@ -337,40 +331,35 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
     if !header.is_valid(corrected_cfa) {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
+    if (width, height) != (header.raw_width as usize, header.raw_height as usize) {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression(
+            "Fuji header has different dimensions".into(),
+        ));
+    }
 
     let params = Params::new(&header);
     log::debug!("Params: {:?}", params);
 
     let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+        .map(|_| Ok(stream.read_u32::<BigEndian>()? as usize))
+        .collect::<Result<_>>()?;
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -379,30 +368,26 @@ pub(super) fn decompress_fuji(
     let q_bases: Option<Vec<u8>> = if !header.is_lossless() {
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
-        let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(&mut bytes)?;
+        Some(bytes)
     } else {
         None
     };
 
     // calculating raw block offsets
+    let mut offset = stream.position() as usize;
     let strips: Vec<Strip> = block_sizes
         .iter()
         .enumerate()
         .map(|(n, &block_size)| {
             let strip = Strip {
-                offset: stream.stream_position().unwrap() as usize,
+                offset,
                 size: block_size,
                 n,
                 header: header.clone(),
                 cfa: corrected_cfa.clone(),
             };
-            stream.seek(SeekFrom::Current(block_size as i64)).unwrap();
+            offset += block_size;
             strip
         })
         .collect();
@@ -412,15 +397,15 @@ pub(super) fn decompress_fuji(
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -585,7 +570,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -594,7 +579,8 @@ impl CompressedBlock {
                               block: &mut CompressedBlock,
                               c0: usize,
                               c1: usize,
-                              grad: usize| {
+                              grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -604,7 +590,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -612,7 +598,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -622,7 +608,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -630,11 +616,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -642,7 +629,8 @@ impl CompressedBlock {
                                block: &mut CompressedBlock,
                                c0: usize,
                                c1: usize,
-                               grad: usize| {
+                               grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -652,7 +640,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -660,7 +648,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -670,7 +658,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -678,33 +666,34 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -719,7 +708,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -728,14 +718,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -747,7 +737,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -755,9 +745,11 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -765,7 +757,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -786,9 +778,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -809,10 +802,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -835,13 +829,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -863,7 +858,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -875,10 +870,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -903,7 +899,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -913,9 +909,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -940,14 +937,17 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1136,11 +1136,11 @@ impl Params {
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
     let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+    // consume the next bit which is 0b1
+    pump.get_bits(1)?;
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1173,22 +1173,22 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        return Err(Error::Decompression(format!("Invalid code: {code}")));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1203,7 +1203,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1214,7 +1214,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1255,7 +1255,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1278,6 +1278,8 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1288,7 +1290,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1327,7 +1329,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1350,6 +1352,8 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From b15bd479ed6ff595680401fe55c46342885136a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 39/69] fix: Olympus decompression of images with an odd width

---
 src/olympus/decompress.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index a106933..dc0f066 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -36,8 +36,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
         ));
     }
     // A pixel is at least 6 bits: do not allocate for data that can't be there.
-    if (w / 2 * 2)
-        .checked_mul(h)
+    if w.checked_mul(h)
         .and_then(|pixels| pixels.checked_mul(6))
         .map(|bits| bits > input.len() * 8)
         .unwrap_or(true)
@@ -70,10 +69,10 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
     for y in 0..h {
         let mut acarry = [[0_i32; 3]; 2];
 
-        for x in 0..(w / 2) {
+        for x in 0..((w + 1) / 2) {
             let col: usize = x * 2;
-            // p is for parity. We go even and odds raw.
-            for p in 0..2 {
+            // p is for parity. We go even and odds raw. An odd width ends on an even column.
+            for p in 0..std::cmp::min(2, w - col) {
                 let i = if acarry[p][2] < 3 { 2 } else { 0 };
                 let mut nbits = 2 + i;
                 while (nbits + i) < 16 && acarry[p][0] as u16 >> (nbits + i) != 0 {
-- 
2.43.0


From fb0f084204889b2317b9e6cc852f9539b187d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 40/69] fix: Panasonic decompression: last pixels of a group
 always have their low bits

---
 src/panasonic/decompress.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/panasonic/decompress.rs b/src/panasonic/decompress.rs
index 12aa38f..7939084 100644
--- a/src/panasonic/decompress.rs
+++ b/src/panasonic/decompress.rs
@@ -107,9 +107,15 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     let mut color_nonzero = [false, false];
     let mut out = [0u16; 14];
 
-    fn load_initial_px(color_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+    // The `last` pixel of each color has all its 12 bits even if the top is zero.
+    fn load_initial_px(
+        color_idx: usize,
+        last: bool,
+        nonzero: &mut [bool; 2],
+        bits: &mut BitsCursor,
+    ) -> u16 {
         let top = bits.next(8);
-        let bottom = if top == 0 && !nonzero[color_idx] {
+        let bottom = if top == 0 && !nonzero[color_idx] && !last {
             0
         } else {
             nonzero[color_idx] = true;
@@ -119,8 +125,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     }
 
     // 2 initial pixels
-    out[0] = load_initial_px(0, &mut color_nonzero, &mut bits);
-    out[1] = load_initial_px(1, &mut color_nonzero, &mut bits);
+    out[0] = load_initial_px(0, false, &mut color_nonzero, &mut bits);
+    out[1] = load_initial_px(1, false, &mut color_nonzero, &mut bits);
     // 4 independent differential groups in every chunk
     for diffidx in 0..4 {
         let shift = bits.next(2);
@@ -133,18 +139,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
             let px = if color_nonzero[coloridx] {
                 decode_next_px(bits.next(8), shift, prev)
             } else {
-                load_initial_px(coloridx, &mut color_nonzero, &mut bits)
+                load_initial_px(coloridx, px_allidx > 11, &mut color_nonzero, &mut bits)
             };
-            /* TODO (done? this seems to be the "first nonzero pixel
-             * is lossless" problem):
-             * dcraw code does an odd thing:
-             * it will read extra 4 bits for the last 2 pixels if
-             * there's all 0's in the chunk. This should send the
-             * stream out of whack.  The pana_bits reader strongly
-             * suggests that the stream of data is separated into
-             * 16-byte chunks, so reading another byte (or half-byte
-             * if interrupted) would contradict it.
-             */
             out[px_allidx] = px;
         }
     }
-- 
2.43.0


From bbe51cae8b87007a25fe3fd749a2d845dcd8965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 41/69] fix: Panasonic decompressed data has the size of the
 image

---
 src/panasonic.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index 864abe5..cc78fd5 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -989,19 +989,24 @@ impl RawFileImpl for Rw2File {
                     let pattern = mosaic_pattern.unwrap_or_default();
                     let buffer = self.container()?.load_buffer8(offset.offset, offset.len)?;
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
-                        decompress::panasonic_raw1(&buffer).ok().map(|raw| {
-                            (
-                                Compression::None,
-                                RawImage::with_data16(
-                                    width,
-                                    height,
-                                    bpc,
-                                    DataType::Raw,
-                                    raw,
-                                    pattern.clone(),
-                                ),
-                            )
-                        })
+                        decompress::panasonic_raw1(&buffer)
+                            .ok()
+                            .filter(|raw| raw.len() >= pixel_count as usize)
+                            .map(|mut raw| {
+                                // The last block is padded.
+                                raw.truncate(pixel_count as usize);
+                                (
+                                    Compression::None,
+                                    RawImage::with_data16(
+                                        width,
+                                        height,
+                                        bpc,
+                                        DataType::Raw,
+                                        raw,
+                                        pattern.clone(),
+                                    ),
+                                )
+                            })
                     } else {
                         None
                     }
-- 
2.43.0


From d0e477f9731aaf073fefa9ad21b6b7ba045de8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 42/69] fix: RAF with an unreadable CFA directory isn't of the
 old layout

---
 src/fujifilm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 964c729..2114fe4 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -444,6 +444,13 @@ impl RawFileImpl for RafFile {
                         }
                     }
                 } else {
+                    // It's only the old layout if there isn't a directory that
+                    // couldn't be read.
+                    let magic = raw_container.load_buffer8(raw_container.cfa_offset() as u64, 4)?;
+                    if magic.len() < 4 || magic == b"II\x2a\0" || magic == b"MM\0\x2a" {
+                        log::error!("RAF: couldn't read the CFA directory");
+                        return Err(Error::FormatError);
+                    }
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
                     cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
-- 
2.43.0


From 03868d1ae8ad7ee0a6faf400f71a9b49424c905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:55 +0000
Subject: [PATCH 43/69] fix: Pentax decompression doesn't allocate for data
 that can't be there

---
 src/pentax/decompress.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index ce61bdc..d824a6e 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -40,6 +40,14 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
+    // A pixel is at least one bit: do not allocate for data that can't be there.
+    if width
+        .checked_mul(height)
+        .map(|pixels| pixels > src.len() * 8)
+        .unwrap_or(true)
+    {
+        return Err(Error::UnexpectedEOF);
+    }
     let mut out = vec![0_u16; width * height];
     let mut htable = HuffTable::default();
 
-- 
2.43.0


From 204a5b636670cf0d7634622e2cebd0c3062847bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:58 +0000
Subject: [PATCH 44/69] fix: opening a file with a non UTF-8 extension doesn't
 panic

---
 src/rawfile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index 1cefd0f..e666dc1 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,7 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str()?))
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From 02bb8cfd3ea0a1722290ec97cb91acf8880fc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:58 +0000
Subject: [PATCH 45/69] fix: a file can be opened as the type of the published
 SR2 MIME type

---
 src/factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory.rs b/src/factory.rs
index 1c61657..e9f3fb3 100644
--- a/src/factory.rs
+++ b/src/factory.rs
@@ -59,6 +59,7 @@ lazy_static::lazy_static! {
         (Type::Raf, RafFile::factory as RawFileFactory),
         (Type::Rw, Rw2File::factory as RawFileFactory),
         (Type::Rw2, Rw2File::factory as RawFileFactory),
+        (Type::Sr2, ArwFile::factory as RawFileFactory),
     ]);
 }
 
-- 
2.43.0


From f56f2811fe67a3627e16786e65bddb52be703854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:47 +0000
Subject: [PATCH 46/69] fix: big endian ORF is identified by its content

---
 src/identify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/identify.rs b/src/identify.rs
index 44d03df..0baea54 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -143,7 +143,10 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
     if len >= 14 && &buf[0..14] == b"II\x1a\0\0\0HEAPCCDR" {
         return Ok(Some(Crw));
     }
-    if &buf[0..4] == b"IIRO" || &buf[0..4] == b"IIRS" {
+    if [b"IIRO", b"IIRS", b"MMOR", b"MMSR"]
+        .iter()
+        .any(|magic| magic[..] == buf[0..4])
+    {
         return Ok(Some(Orf));
     }
     if &buf[0..4] == b"IIU\0" {
-- 
2.43.0


From 388ca3572c0d7338fb749bf8277d6e3958db2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:34 +0000
Subject: [PATCH 47/69] fix: the EOS 60D has an identifier and a calibration of
 its own

---
 src/camera_ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/camera_ids.rs b/src/camera_ids.rs
index 53abaec..0548f0b 100644
--- a/src/camera_ids.rs
+++ b/src/camera_ids.rs
@@ -135,7 +135,7 @@ pub mod canon {
     pub const KISS_F: u16 = EOS_1000D;
     pub const G10: u16 = 35;
     pub const EOS_50D: u16 = 36;
-    pub const EOS_60D: u16 = 36;
+    pub const EOS_60D: u16 = 124;
     pub const S90: u16 = 37;
     pub const G12: u16 = 38;
     pub const S95: u16 = 39;
-- 
2.43.0


From 060ea1920439fd99e1b9f509ebce59d2cf3909ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 48/69] fix: the C header's Canon 60D and Hasselblad L2D-20c
 identifiers are the library's

---
 include/libopenraw/cameraids.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index bc83974..ed6f7ef 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -130,7 +130,7 @@ enum _OR_TYPEID_VENDOR_CANON {
     OR_TYPEID_CANON_KISS_F = OR_TYPEID_CANON_1000D,
     OR_TYPEID_CANON_G10 = 35,
     OR_TYPEID_CANON_50D = 36,
-    OR_TYPEID_CANON_60D = 36,
+    OR_TYPEID_CANON_60D = 124,
     OR_TYPEID_CANON_S90 = 37,
     OR_TYPEID_CANON_G12 = 38,
     OR_TYPEID_CANON_S95 = 39,
@@ -937,7 +937,7 @@ enum _OR_TYPEID_VENDOR_HASSELBLAD {
     OR_TYPEID_HASSELBLAD_UNKNOWN = 0,
     OR_TYPEID_HASSELBLAD_LUNAR = 1,
     OR_TYPEID_HASSELBLAD_L1D_20C = 2,
-    OR_TYPEID_HASSELBLAD_L2D_20C = 2,
+    OR_TYPEID_HASSELBLAD_L2D_20C = 3,
 
     _OR_TYPEID_HASSELBLAD_LAST
 };
-- 
2.43.0


From 724540247af08ac5e0bd18daa0d9f7c4b7156c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 49/69] fix: calibration of the Canon EOS-1D Mark III, 5D Mark
 IV and 5DS

---
 src/canon/matrices.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/canon/matrices.rs b/src/canon/matrices.rs
index a2455c2..7eb0b89 100644
--- a/src/canon/matrices.rs
+++ b/src/canon/matrices.rs
@@ -110,7 +110,7 @@ lazy_static::lazy_static! {
       [ 6240, -466, -822, -8180, 15825, 2500, -1801, 1938, 8042 ] ),
     BuiltinMatrix::new( canon!(EOS_1DMKIII),
       1023,
-      0xe80,
+      0x3bb0,
       [ 6291, -540, -976, -8350, 16145, 2311, -1714, 1858, 7326 ] ),
     BuiltinMatrix::new( canon!(EOS_1DMKIV),
       0,
@@ -247,14 +247,14 @@ lazy_static::lazy_static! {
     BuiltinMatrix::new( canon!(EOS_5DMKIV),
       0,
       0x3bb0,
-      [  6014, -220, -795, -4109, 12014, 2361, -561, 1824, 5787 ] ),
+      [ 6446, -366, -864, -4436, 12204, 2513, -952, 2496, 6348 ] ),
     BuiltinMatrix::new( canon!(EOS_5DS),
       0,
-      0xe6c,
+      0x3c96,
       [ 6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610 ] ),
     BuiltinMatrix::new( canon!(EOS_5DS_R),
       0,
-      0xe6c,
+      0x3c96,
       [ 6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610 ] ),
     BuiltinMatrix::new( canon!(EOS_6D),
       0,
-- 
2.43.0


From 6cb98250b1b706fef0c2e3169aac774a33662846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 50/69] fix: colour matrix of the Fujifilm X-A5 sensor

---
 src/fujifilm/matrices.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fujifilm/matrices.rs b/src/fujifilm/matrices.rs
index 2fab3d6..3a8b0e6 100644
--- a/src/fujifilm/matrices.rs
+++ b/src/fujifilm/matrices.rs
@@ -197,7 +197,7 @@ lazy_static::lazy_static! {
             fuji!(XA5),
             0,
             0,
-            [ 11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
+            [ 11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
         BuiltinMatrix::new(
             fuji!(XA7),
             0,
@@ -278,7 +278,7 @@ lazy_static::lazy_static! {
             fuji!(XT100),
             0,
             0,
-            [ 11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
+            [ 11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
         BuiltinMatrix::new(
             fuji!(XT2),
             0,
@@ -348,7 +348,7 @@ lazy_static::lazy_static! {
             fuji!(XF10),
             0,
             0,
-            [ 11673, -476, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
+            [ 11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569 ] ),
         BuiltinMatrix::new(
             fuji!(S200EXR),
             512,
-- 
2.43.0


From 352b5d81a1c2bdfd471a021b54564b4f50952089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 51/69] fix: colour matrix of the Olympus E-M5

---
 src/olympus/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/olympus/matrices.rs b/src/olympus/matrices.rs
index a1212da..af23d13 100644
--- a/src/olympus/matrices.rs
+++ b/src/olympus/matrices.rs
@@ -193,7 +193,7 @@ lazy_static::lazy_static! {
     BuiltinMatrix::new( olympus!(EM5),
       0,
       0xfe1,
-      [ 8380, -2630, -639, -2887, 725, 2496, -627, 1427, 5438 ] ),
+      [ 8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438 ] ),
     BuiltinMatrix::new( olympus!(EM5II),
       0,
       0,
-- 
2.43.0


From a3edb991a65deb11284a409bd372a69acefdf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 52/69] fix: a panic on short Canon colour data

---
 src/canon/colour.rs | 91 ++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..7aca5a2 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -74,7 +74,7 @@ impl ColourFormat {
             _ => {
                 // The first u16 is a version field (i16), except for
                 // ColourData1 and ColourData2.
-                match colour_data[0] as i16 {
+                match *colour_data.first()? as i16 {
                     // 1DmkIIN, 5D, 30D, 400D
                     1 => Some(ColourData3),
                     // 1DmkIII, 1DSmkIII, 1DmkIV, 5DmkII, 7D,
@@ -117,48 +117,54 @@ impl ColourFormat {
     pub(crate) fn blacks(&self, colour_data: &[u16]) -> Option<[u16; 4]> {
         use ColourFormat::*;
 
-        let version = colour_data[0];
+        let version = *colour_data.first()?;
+        // The levels of the four channels, if there are enough data.
+        let quad = |at: usize| {
+            colour_data
+                .get(at..at + 4)
+                .and_then(|levels| levels.try_into().ok())
+        };
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => quad(196),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => quad(692),
+                6 | 7 => quad(715),
+                9 => quad(719),
                 _ => {
-                    log::error!("Invalid version {} for {:?}", colour_data[0], self);
+                    log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => quad(333),
+                -3 => quad(264),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => quad(479),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => quad(504),
+                11 => quad(728),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => quad(556),
+                12 | 13 | 15 => quad(778),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => quad(329),
+            ColourData10 => quad(343),
+            ColourData11 => quad(363),
         }
     }
 
@@ -167,43 +173,18 @@ impl ColourFormat {
     pub(crate) fn as_shot(&self, colour_data: &[u16]) -> Option<[f64; 3]> {
         use ColourFormat::*;
 
-        match *self {
-            ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-        }
+        let at = match *self {
+            ColourData1 => 25,
+            ColourData2 => 24,
+            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => 63,
+            ColourData5 | ColourData9 => 71,
+            ColourData10 => 85,
+            ColourData11 => 105,
+        };
+        let rggb = colour_data.get(at..at + 4)?;
+        let r = rggb[0] as f64;
+        let g = rggb[1] as f64;
+        let b = rggb[3] as f64;
+        Some([g / r, 1.0, g / b])
     }
 }
-- 
2.43.0


From a55c7aea79da56f90bc32c406d2dfca49cbc77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 53/69] fix: strip locations of a CR2 stored as SHORT

---
 src/canon/cr2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index c4f286a..dc22057 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -204,13 +204,13 @@ impl Cr2File {
             Error::NotFound
         })?;
         let offset = cfa_ifd
-            .value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS)
+            .uint_value(exif::EXIF_TAG_STRIP_OFFSETS)
             .ok_or_else(|| {
                 log::debug!("offset not found");
                 Error::NotFound
             })?;
         let byte_len = cfa_ifd
-            .value::<u32>(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+            .uint_value(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
             .ok_or_else(|| {
                 log::debug!("byte len not found");
                 Error::NotFound
-- 
2.43.0


From cded1cbfdd5b5e39a4b92b36b2afbf4dfdb4aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 54/69] fix: a panic asking a CRW its white balance first

---
 src/canon/crw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 43d59e2..fa1442b 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -149,6 +149,8 @@ impl CrwFile {
         }
 
         // D30, G, S.
+        // The view can't be borrowed when the type id isn't known yet.
+        let offset = self.crw_wb_offset();
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
                 let mut view = container.borrow_view_mut();
@@ -169,7 +171,6 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
-- 
2.43.0


From 2b7006b655ce934a33c6cb8aba15725f80c89fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 55/69] fix: a panic on a short AsShotWhiteXY

---
 src/dng.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dng.rs b/src/dng.rs
index 3635e22..2a45fb3 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -405,6 +405,7 @@ impl RawFileImpl for DngFile {
                         } else if let Some(as_shot_xy) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
+                            .filter(|xy| xy.len() >= 2)
                         {
                             rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
                         }
-- 
2.43.0


From 0ee5fb4d28bbd1b0cb91bc4064c3a466f6bcf50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 56/69] fix: black levels of a Panasonic file without them

---
 src/panasonic.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index cc78fd5..599df67 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -965,10 +965,10 @@ impl RawFileImpl for Rw2File {
             let data_type = if has_raw_offset {
                 probe!(self.probe, "rw2.compression", "panasonic");
                 DataType::CompressedRaw
-            } else if real_len >= (pixel_count * 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 2 {
                 probe!(self.probe, "rw2.compression", "unpacked");
                 DataType::Raw
-            } else if real_len >= (pixel_count * 3 / 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 3 / 2 {
                 // Need to unpack
                 probe!(self.probe, "rw2.compression", "packed");
                 packed = true;
@@ -1117,15 +1117,9 @@ impl RawFileImpl for Rw2File {
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
-            let br = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or(max_level) as u16;
-            let bg = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or(max_level) as u16;
-            let bb = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or(max_level) as u16;
+            let br = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_RED).unwrap_or(0) as u16;
+            let bg = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN).unwrap_or(0) as u16;
+            let bb = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE).unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
-- 
2.43.0


From 7e0480a7705e1d96f178dfe552120d1c38ab9f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 57/69] fix: a panic on incomplete A100 private data

---
 src/sony.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index dc3c52c..a3d2cd5 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,13 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
-- 
2.43.0


From 7628857309833a6bd93ecfaae95094780eac27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 58/69] fix: linearization with a table: length and black level

---
 src/rawimage.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 6d294c3..f3f0154 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -77,7 +77,7 @@ pub struct RawImage {
     as_shot: AsShot,
     /// Colour matrices
     matrices: [ColourMatrix; 2],
-    /// Linearization table. len = 2^bpc
+    /// Linearization table. Values past the end map to the last entry.
     linearization_table: Option<Vec<u16>>,
 }
 
@@ -434,20 +434,16 @@ impl RawImage {
         let white = self.whites()[0];
         let black = self.blacks()[0];
         let range = white.saturating_sub(black) as f64;
-        let table = self
-            .linearization_table
-            .as_ref()
-            .filter(|t| Some(t.len()) == 1_usize.checked_shl(self.bpc() as u32));
+        let table = self.linearization_table.as_ref();
         log::debug!("pre-lin at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
         let data = buffer
             .data
             .iter()
             .map(|v| {
-                table
+                let v = table
                     .and_then(|t| t.get(*v as usize).or_else(|| t.last()))
-                    .map(|v| *v as f64)
-                    .unwrap_or_else(|| if *v < black { 0.0 } else { (*v - black) as f64 })
-                    / range
+                    .unwrap_or(v);
+                v.saturating_sub(black) as f64 / range
             })
             .collect();
 
-- 
2.43.0


From 4be98038beb30c9b97b6c973344a6a892cb6c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 59/69] fix: data type of a linearized image

---
 src/rawimage.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index f3f0154..b2b9588 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -585,7 +585,16 @@ impl RawImage {
             "pixel rgb(u16) at 1000, 1000: {:?}",
             data16.pixel_at(1000, 1000)
         );
-        let mut image = RawImage::with_image_buffer(data16, DataType::PixmapRgb16, pattern);
+        // Until it is interpolated this is still raw data.
+        let data_type = if options.stage >= RenderingStage::Interpolation {
+            DataType::PixmapRgb16
+        } else {
+            DataType::Raw
+        };
+        let mut image = RawImage::with_image_buffer(data16, data_type, pattern);
+        if data_type == DataType::Raw {
+            image.set_photometric_interpretation(self.photom_int);
+        }
         if options.stage >= RenderingStage::Linearization {
             image.set_blacks([0, 0, 0, 0]);
             image.set_whites([u16::MAX; 4]);
-- 
2.43.0


From 097c683f3f71c16b45d704a8fb74c7604557ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:01 +0000
Subject: [PATCH 60/69] fix: a CRW orientation is stored as a short, a make or
 model may be in the record

---
 src/canon/crw/ciff.rs           | 19 ++++++++++---------
 src/canon/crw/ciff/container.rs | 17 +++++------------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 31e5666..a7b842d 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -335,14 +335,19 @@ impl RecordEntry {
         Ok(values)
     }
 
+    /// Split the NUL terminated strings.
+    fn strings(bytes: &[u8]) -> Vec<String> {
+        bytes
+            .split(|b| *b == 0)
+            .map(utils::from_maybe_nul_terminated)
+            .collect()
+    }
+
     fn inline_data(&self, container: &Container) -> Option<RecordData> {
         if let Record::InRec(data) = self.data {
             match self.type_() {
                 RecordType::Byte | RecordType::Byte2 => Some(RecordData::Byte(data.to_vec())),
-                RecordType::Ascii => {
-                    let s = utils::from_maybe_nul_terminated(&data);
-                    Some(RecordData::Ascii(vec![s]))
-                }
+                RecordType::Ascii => Some(RecordData::Ascii(Self::strings(&data))),
                 RecordType::Word => {
                     let values = Self::inrec_read::<u16>(&data, container.endian()).ok()?;
                     Some(RecordData::Word(values))
@@ -377,11 +382,7 @@ impl RecordEntry {
                 }
                 RecordType::Ascii => {
                     let s = Self::heap_bytes(container, pos, len)?;
-                    Some(RecordData::Ascii(
-                        s.split(|b| *b == 0)
-                            .map(utils::from_maybe_nul_terminated)
-                            .collect(),
-                    ))
+                    Some(RecordData::Ascii(Self::strings(&s)))
                 }
                 RecordType::Word => {
                     let count = self.count()?;
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 61c71b4..77a1109 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -23,7 +23,7 @@
 
 use std::cell::{RefCell, RefMut};
 use std::collections::{HashMap, HashSet};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use chrono::TimeZone;
@@ -33,7 +33,6 @@ use crate::container::{Endian, RawContainer};
 use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
-use crate::utils;
 use crate::{Dump, Type};
 
 use super::{
@@ -317,7 +316,7 @@ impl Container {
                 self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
-                    exif::TagType::Long as i16,
+                    exif::TagType::Short as i16,
                     1,
                     buffer,
                 );
@@ -508,16 +507,10 @@ impl Container {
             heap.records()
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
-                    if let Record::InHeap((pos, len)) = r.data {
-                        let s = RecordEntry::heap_bytes(self, pos, len)?;
-                        let mut s = s.split(|b| *b == 0);
-                        let mut v = s.next()?;
-                        if tag == exif::EXIF_TAG_MODEL {
-                            v = s.next()?;
-                        }
-                        Some(utils::from_maybe_nul_terminated(v))
+                    if let Some(RecordData::Ascii(strings)) = r.data(self) {
+                        let index = usize::from(tag == exif::EXIF_TAG_MODEL);
+                        strings.into_iter().nth(index)
                     } else {
-                        log::error!("CIFF: Record RAWMAKEMODEL not in heap");
                         None
                     }
                 })
-- 
2.43.0


From f4ea6a229633b132bb6185df57a218a82e2bbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 61/69] fix: a CRW decoder table may be stored in the record

---
 src/canon/crw.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index fa1442b..a01a2b2 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -25,7 +25,7 @@
 pub(crate) mod ciff;
 mod decompress;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 use std::rc::Rc;
 
 use once_cell::unsync::OnceCell;
@@ -343,11 +343,8 @@ impl RawFileImpl for CrwFile {
                     .get(&ciff::Tag::DecoderTable)
                     .ok_or(Error::NotFound)
                     .and_then(|r| {
-                        if let ciff::Record::InHeap((pos, _)) = r.data {
-                            let mut view = container.borrow_view_mut();
-                            view.seek(SeekFrom::Start(pos as u64))?;
-                            let table = view.read_endian_u32(container.endian())?;
-                            Ok(table)
+                        if let Some(ciff::RecordData::DWord(data)) = r.data(container) {
+                            data.first().copied().ok_or(Error::NotFound)
                         } else {
                             Err(Error::NotFound)
                         }
-- 
2.43.0


From 65c2a0d70260b15ae787cbc96c11215d4ddf001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 62/69] fix: the white balance of a MRW follows its mosaic

---
 src/minolta.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 5c8d7be..20e4a9d 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -666,21 +666,21 @@ impl MrwContainer {
     }
 
     pub(crate) fn get_wb(&self) -> Option<[f64; 4]> {
+        // The coefficients are in the order of the pattern.
+        let (r, g, b) = match self.minolta_prd().ok()?.mosaic {
+            Pattern::Gbrg => (2, 0, 1),
+            _ => (0, 1, 3),
+        };
         self.wbg.as_ref().and_then(|wbg| {
-            let rd = wbg
-                .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 2_f64.powi(6 + d as i32))?;
-            let gd = wbg
-                .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 2_f64.powi(6 + d as i32))?;
-            let bd = wbg
-                .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 2_f64.powi(6 + d as i32))?;
-            let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
-            let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
-            let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
-
-            Some([rd / rn, gd / gn, bd / bn, f64::NAN])
+            let coefficient = |index: u64| -> Option<f64> {
+                let denominator = wbg
+                    .uint8_value(Wbg::DenominatorR as u64 + index, self)
+                    .map(|d| 2_f64.powi(6 + d as i32))?;
+                let nominator = wbg.uint16_value(Wbg::NominatorR as u64 + 2 * index, self)? as f64;
+                Some(denominator / nominator)
+            };
+
+            Some([coefficient(r)?, coefficient(g)?, coefficient(b)?, f64::NAN])
         })
     }
 
-- 
2.43.0


From b4456515e9102f302612d5ba6c49a3461750ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 63/69] fix: a last MP4 box without size, and a minf box before
 hdlr

---
 src/mp4/parse/mod.rs | 61 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index d26fd6e..6026cdf 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -351,6 +351,7 @@ struct BoxHeader {
 impl BoxHeader {
     const MIN_SIZE: u64 = 8; // 4-byte size + 4-byte type
     const MIN_LARGE_SIZE: u64 = 16; // 4-byte size + 4-byte type + 16-byte size
+    const TO_END: u64 = u64::MAX; // Size of a box that extends to the end of the file
 }
 
 /// File type box 'ftyp'.
@@ -1532,15 +1533,32 @@ pub(crate) struct BMFFBox<'a, T: 'a> {
 
 struct BoxIter<'a, T: 'a> {
     src: &'a mut T,
+    /// These are the boxes of the file: the last one may have no size.
+    top_level: bool,
 }
 
 impl<T: Read> BoxIter<'_, T> {
     fn new(src: &mut T) -> BoxIter<T> {
-        BoxIter { src }
+        BoxIter {
+            src,
+            top_level: false,
+        }
+    }
+
+    /// Iterate over the boxes of the file.
+    fn top_level(src: &mut T) -> BoxIter<T> {
+        BoxIter {
+            src,
+            top_level: true,
+        }
     }
 
     fn next_box(&mut self) -> Result<Option<BMFFBox<T>>> {
-        let r = read_box_header(self.src);
+        let r = if self.top_level {
+            read_top_level_box_header(self.src)
+        } else {
+            read_box_header(self.src)
+        };
         match r {
             Ok(h) => Ok(Some(BMFFBox {
                 head: h,
@@ -1602,10 +1620,22 @@ impl<T> Drop for BMFFBox<'_, T> {
 ///
 /// See ISOBMFF (ISO 14496-12:2020) § 4.2
 fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
+    read_any_box_header(src, false)
+}
+
+/// Read and parse the header of a top level box: unlike with the
+/// others, the size may be 0 for a box that extends to the end of the
+/// file. In that case the size is `BoxHeader::TO_END`.
+fn read_top_level_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
+    read_any_box_header(src, true)
+}
+
+fn read_any_box_header<T: ReadBytesExt>(src: &mut T, top_level: bool) -> Result<BoxHeader> {
     let size32 = be_u32(src)?;
     let name = BoxType::from(be_u32(src)?);
     let size = match size32 {
         // valid only for top-level box and indicates it's the last box in the file.  usually mdat.
+        0 if top_level => BoxHeader::TO_END,
         0 => return Err(Error::Unsupported("unknown sized box")),
         1 => {
             let size64 = be_u64(src)?;
@@ -3196,9 +3226,7 @@ pub fn read_mp4<T: Read>(f: &mut T) -> Result<MediaContext> {
     let mut context = None;
     let mut found_ftyp = false;
     let mut brand: Option<FourCC> = None;
-    // TODO(kinetik): Top-level parsing should handle zero-sized boxes
-    // rather than throwing an error.
-    let mut iter = BoxIter::new(f);
+    let mut iter = BoxIter::top_level(f);
     while let Some(mut b) = iter.next_box()? {
         // box ordering: ftyp before any variable length box (inc. moov),
         // but may not be first box in file if file signatures etc. present
@@ -3239,6 +3267,11 @@ pub fn read_mp4<T: Read>(f: &mut T) -> Result<MediaContext> {
             }
             _ => skip_box_content(&mut b)?,
         };
+        if b.head.size == BoxHeader::TO_END {
+            // The last box: its content is anything left.
+            skip_box_remain(&mut b)?;
+            break;
+        }
         check_parser_state!(b.content);
         if context.is_some() {
             debug!(
@@ -3302,10 +3335,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid);
                     skip_box_content(&mut b)?;
                 }
             }
@@ -3502,6 +3532,8 @@ fn parse_mdhd<T: Read>(
 }
 
 fn read_mdia<T: Read>(f: &mut BMFFBox<T>, track: &mut Track, brand: &FourCC) -> Result<()> {
+    // The media information can only be read once the handler is known.
+    let mut minf = None;
     let mut iter = f.box_iter();
     while let Some(mut b) = iter.next_box()? {
         match b.head.name {
@@ -3522,11 +3554,22 @@ fn read_mdia<T: Read>(f: &mut BMFFBox<T>, track: &mut Track, brand: &FourCC) ->
                 }
                 debug!("{:?}", hdlr);
             }
+            BoxType::MediaInformationBox if track.track_type == TrackType::Unknown => {
+                minf = Some((b.head, b.read_into_try_vec()?));
+            }
             BoxType::MediaInformationBox => read_minf(&mut b, track, brand)?,
             _ => skip_box_content(&mut b)?,
         };
         check_parser_state!(b.content);
     }
+    if let Some((head, data)) = minf {
+        let mut content = std::io::Cursor::new(data.as_slice());
+        let mut b = BMFFBox {
+            head,
+            content: content.by_ref().take(data.len().to_u64()),
+        };
+        read_minf(&mut b, track, brand)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 7a6a39d3942ba00489ae479d2dfcb42eb8124d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:02 +0000
Subject: [PATCH 64/69] fix: find the CR3 preview by its index and its boxes,
 and tracks by id

---
 src/mp4/container.rs  | 80 ++++++++++++++++++++-----------------------
 src/mp4/parse/craw.rs | 71 ++++++++++++++++++++++++++++++++++----
 2 files changed, 102 insertions(+), 49 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 330ddae..5fc991e 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -25,7 +25,6 @@ use std::cell::{RefCell, RefMut};
 use std::io::{Seek, SeekFrom};
 use std::rc::Rc;
 
-use byteorder::{BigEndian, ReadBytesExt};
 use once_cell::unsync::OnceCell;
 
 use crate::container;
@@ -128,7 +127,11 @@ impl Container {
     }
 
     pub(crate) fn load(&mut self) -> Result<()> {
-        let context = mp4parse::read_mp4(self.view.get_mut())?;
+        let mut context = mp4parse::read_mp4(self.view.get_mut())?;
+        // The position of the track boxes in the file has no meaning.
+        context
+            .tracks
+            .sort_by_key(|track| track.track_id.unwrap_or(u32::MAX));
         self.context.replace(context);
         Ok(())
     }
@@ -137,42 +140,34 @@ impl Container {
     pub(crate) fn preview_desc(&self) -> Result<thumbnail::ThumbDesc> {
         use thumbnail::{Data, DataOffset};
 
-        let preview_offset = self.craw_table_entry(1)?;
-
-        // box (24) + content (8) + prvw box (8) + unknown (4)
-        // We need to skip the "boxes" (ISO container)
-        // And skip a short (16bits) value.
-        let offset = preview_offset
-            .0
-            .checked_add(44 + 2)
-            .ok_or(Error::FormatError)?;
+        let entry = self.craw_table_entry(craw::CanonOffset::PREVIEW)?;
 
         let mut view = self.view.borrow_mut();
-        view.seek(SeekFrom::Start(offset))?;
-        let width = view.read_u16::<BigEndian>()? as u32;
-        let height = view.read_u16::<BigEndian>()? as u32;
-        view.seek(SeekFrom::Current(2))?;
-        let len = view.read_u32::<BigEndian>()? as u64;
+        view.seek(SeekFrom::Start(entry.offset))?;
+        let preview = craw::read_preview(&mut *view)?.ok_or(Error::NotFound)?;
+        let offset = entry
+            .offset
+            .checked_add(preview.offset)
+            .ok_or(Error::FormatError)?;
 
-        if width == 0 || height == 0 || len == 0 {
+        if preview.width == 0 || preview.height == 0 || preview.len == 0 {
             return Err(Error::NotFound);
         }
 
         log::debug!(
             "Found preview: {}x{} @{} len: {}",
-            width,
-            height,
-            offset + 10,
-            len
+            preview.width,
+            preview.height,
+            offset,
+            preview.len
         );
 
         Ok(thumbnail::ThumbDesc {
-            width,
-            height,
-            // Added 10 to the offset because we read 10 bytes
+            width: preview.width as u32,
+            height: preview.height as u32,
             data: Data::Offset(DataOffset {
-                offset: offset + 10,
-                len,
+                offset,
+                len: preview.len as u64,
             }),
             data_type: DataType::Jpeg,
         })
@@ -311,19 +306,14 @@ impl Container {
         Ok(std::cell::Ref::map(craw, |craw| craw.as_ref().unwrap()))
     }
 
-    /// Return an entry from the Craw table as index.
-    /// The entry contains offset, size tuple.
-    fn craw_table_entry(&self, index: usize) -> Result<(u64, u64)> {
-        let craw = &self.context.borrow().craw;
-        if craw.is_none() {
-            return Err(Error::FormatError);
-        }
-        let craw = craw.as_ref().unwrap();
-        if craw.offsets.len() <= index {
-            return Err(Error::NotFound);
-        }
-        let entry = craw.offsets[index];
-        Ok(entry)
+    /// Return the entry from the Craw table that has that index.
+    fn craw_table_entry(&self, index: u32) -> Result<craw::CanonOffset> {
+        self.craw_header()?
+            .offsets
+            .iter()
+            .find(|entry| entry.index == index)
+            .copied()
+            .ok_or(Error::NotFound)
     }
 }
 
@@ -349,14 +339,18 @@ impl Dump for craw::CrawHeader {
             let indent = indent + 1;
             dump_writeln!(out, indent, "'cncv': {} bytes", self.cncv.len());
             dump_writeln!(out, indent, "<offsets>");
-            for (i, offset) in self.offsets.iter().enumerate() {
+            for offset in self.offsets.iter() {
                 dump_writeln!(
                     out,
                     indent + 1,
                     "(@{}, {} bytes){}",
-                    offset.0,
-                    offset.1,
-                    if i == 1 { ": preview" } else { "" }
+                    offset.offset,
+                    offset.size,
+                    if offset.index == craw::CanonOffset::PREVIEW {
+                        ": preview"
+                    } else {
+                        ""
+                    }
                 );
             }
             dump_writeln!(out, indent, "</offsets>");
diff --git a/src/mp4/parse/craw.rs b/src/mp4/parse/craw.rs
index 115e11e..89f0a01 100644
--- a/src/mp4/parse/craw.rs
+++ b/src/mp4/parse/craw.rs
@@ -10,7 +10,8 @@
 
 use super::boxes::BoxType;
 use super::{
-    be_u16, be_u32, be_u64, read_buf, skip, skip_box_content, skip_box_remain, BMFFBox, Error,
+    be_u16, be_u32, be_u64, read_buf, skip, skip_box_content, skip_box_remain, BMFFBox, BoxIter,
+    Error, Offset, OffsetReader,
 };
 use std::io::Read;
 
@@ -23,7 +24,6 @@ pub const XPACKET_UUID: [u8; 16] = [
     0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac,
 ];
 
-#[allow(dead_code)]
 pub const PREVIEW_UUID: [u8; 16] = [
     0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16,
 ];
@@ -36,11 +36,35 @@ pub struct CanonThumbnail {
     pub data: Vec<u8>,
 }
 
+/// Canon preview
+#[derive(Debug, Default)]
+pub struct CanonPreview {
+    pub width: u16,
+    pub height: u16,
+    /// Offset of the JPEG data, from the start of the preview `uuid` box.
+    pub offset: u64,
+    pub len: u32,
+}
+
+/// An entry of the table of offsets, `CTBO`.
+#[derive(Clone, Copy, Debug)]
+pub struct CanonOffset {
+    /// What it is for. See the constants.
+    pub index: u32,
+    pub offset: u64,
+    pub size: u64,
+}
+
+impl CanonOffset {
+    /// Index of the entry for the preview.
+    pub const PREVIEW: u32 = 2;
+}
+
 /// Canon CRAW data ('crx ' brand files)
 #[derive(Debug, Default)]
 pub struct CrawHeader {
     pub cncv: Vec<u8>,
-    pub offsets: Vec<(u64, u64)>,
+    pub offsets: Vec<CanonOffset>,
     pub meta1: Option<Vec<u8>>,
     pub meta2: Option<Vec<u8>>,
     pub meta3: Option<Vec<u8>>,
@@ -106,13 +130,17 @@ pub(crate) fn parse_craw_header<T: Read>(f: &mut BMFFBox<T>) -> super::Result<Cr
             BoxType::CanonTableOffset => {
                 let count = be_u32(&mut b)?;
                 for _i in 0..count {
-                    skip(&mut b, 4)?; // index. We do not care.
+                    let index = be_u32(&mut b)?;
                     let offset = be_u64(&mut b)?;
                     let size = be_u64(&mut b)?;
                     if offset == 0 || size == 0 {
-                        break;
+                        continue;
                     }
-                    header.offsets.push((offset, size));
+                    header.offsets.push(CanonOffset {
+                        index,
+                        offset,
+                        size,
+                    });
                 }
                 skip_box_remain(&mut b)?;
             }
@@ -155,3 +183,34 @@ pub(crate) fn parse_craw_header<T: Read>(f: &mut BMFFBox<T>) -> super::Result<Cr
     debug!("{:?}", header);
     Ok(header)
 }
+
+/// Read the preview. `f` is at the start of the preview `uuid` box.
+pub(crate) fn read_preview<T: Read>(f: &mut T) -> super::Result<Option<CanonPreview>> {
+    let mut f = OffsetReader::new(f);
+    let mut iter = BoxIter::top_level(&mut f);
+    let mut b = iter.next_box()?.ok_or(Error::UnexpectedEOF)?;
+    if b.head.uuid != Some(PREVIEW_UUID) {
+        return Err(Error::InvalidData("not the preview box"));
+    }
+    skip(&mut b, 8)?;
+    let mut iter = b.box_iter();
+    while let Some(mut b) = iter.next_box()? {
+        match b.head.name {
+            BoxType::CanonPreview => {
+                skip(&mut b, 6)?;
+                let width = be_u16(&mut b)?;
+                let height = be_u16(&mut b)?;
+                skip(&mut b, 2)?;
+                let len = be_u32(&mut b)?;
+                return Ok(Some(CanonPreview {
+                    width,
+                    height,
+                    offset: b.offset(),
+                    len,
+                }));
+            }
+            _ => skip_box_content(&mut b)?,
+        }
+    }
+    Ok(None)
+}
-- 
2.43.0


From fdb6441d137aabff297ee9b05bf530d57a74904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 65/69] fix: C API: each error has its code, null file names
 are refused, or_get_extract_rawdata returns the raw data

---
 src/capi.rs | 61 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..563e754 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -67,7 +67,7 @@ use once_cell::sync::Lazy;
 
 use crate::mosaic::Pattern;
 #[cfg(feature = "capi")]
-use crate::rawfile_from_file;
+use crate::{rawfile_from_file, RawFileHandle};
 use crate::{DataType, Error};
 #[cfg(feature = "capi")]
 pub use bitmap::ORBitmapDataRef;
@@ -122,12 +122,18 @@ pub enum or_error {
     BUF_TOO_SMALL = 1,
     /// The expected pointer / ref is invalid.
     NOT_AREF = 2,
+    /// Can't open the file.
+    CANT_OPEN = 3,
     /// Not found.
     NOT_FOUND = 5,
     /// Invalid parameter
     INVALID_PARAM = 6,
     /// Invalid format
     INVALID_FORMAT = 7,
+    /// Decompression error
+    DECOMPRESSION = 8,
+    /// Not implemented
+    NOT_IMPLEMENTED = 9,
     /// An unknown error.
     UNKNOWN = 42,
 }
@@ -135,7 +141,14 @@ pub enum or_error {
 impl From<Error> for or_error {
     fn from(err: Error) -> or_error {
         match err {
+            Error::None => or_error::NONE,
+            Error::BufferTooSmall => or_error::BUF_TOO_SMALL,
+            Error::InvalidAddress => or_error::NOT_AREF,
             Error::NotFound => or_error::NOT_FOUND,
+            Error::InvalidParam => or_error::INVALID_PARAM,
+            Error::InvalidFormat => or_error::INVALID_FORMAT,
+            Error::Decompression(_) | Error::JpegFormat(_) => or_error::DECOMPRESSION,
+            Error::Unimplemented => or_error::NOT_IMPLEMENTED,
             _ => or_error::UNKNOWN,
         }
     }
@@ -150,6 +163,9 @@ impl From<or_error> for Error {
             or_error::NOT_FOUND => Error::NotFound,
             or_error::INVALID_PARAM => Error::InvalidParam,
             or_error::INVALID_FORMAT => Error::InvalidFormat,
+            or_error::DECOMPRESSION => Error::Decompression(String::new()),
+            or_error::NOT_IMPLEMENTED => Error::Unimplemented,
+            or_error::CANT_OPEN => Error::Unknown,
             or_error::UNKNOWN => Error::Unknown,
         }
     }
@@ -287,6 +303,22 @@ extern "C" fn or_debug_set_level(lvl: debug_level) {
     log::set_max_level(level);
 }
 
+#[cfg(feature = "capi")]
+/// Open the raw file at `filename` (a path).
+///
+/// The error is [`CANT_OPEN`][or_error::CANT_OPEN] if the file can't be opened,
+/// and [`INVALID_PARAM`][or_error::INVALID_PARAM] if `filename` is `null`.
+unsafe fn open_file(filename: *const c_char) -> Result<RawFileHandle, or_error> {
+    if filename.is_null() {
+        return Err(or_error::INVALID_PARAM);
+    }
+    let filename = CStr::from_ptr(filename);
+    rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None).map_err(|err| match err {
+        Error::IoError(ref io) if io.raw_os_error().is_some() => or_error::CANT_OPEN,
+        _ => or_error::from(err),
+    })
+}
+
 #[cfg(feature = "capi")]
 #[no_mangle]
 /// Get the thumbnail of size `preferred_size` from the raw file at
@@ -311,11 +343,13 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     if thumb.is_null() {
         return or_error::NOT_AREF;
     }
-    let filename = unsafe { CStr::from_ptr(filename) };
-    let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail_for_size(preferred_size))
-        .map(Box::new)
-        .map_err(or_error::from);
+    let thumbnail = unsafe { open_file(filename) }
+        .and_then(|rawfile| {
+            rawfile
+                .thumbnail_for_size(preferred_size)
+                .map_err(or_error::from)
+        })
+        .map(Box::new);
     if let Err(err) = thumbnail {
         err
     } else {
@@ -349,12 +383,10 @@ unsafe extern "C" fn or_get_extract_rawdata(
         return or_error::NOT_AREF;
     }
 
-    let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
-    let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.load_rawdata(skip_decompression))
-        .map(Box::new)
-        .map_err(or_error::from);
+    let rawdata_ = unsafe { open_file(filename) }
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = rawdata_ {
         err
     } else {
@@ -364,6 +396,13 @@ unsafe extern "C" fn or_get_extract_rawdata(
     }
 }
 
+#[cfg(feature = "capi")]
+/// The bytes up to the first NUL, if any, as a C string.
+fn to_c_string(bytes: &[u8]) -> CString {
+    let bytes = bytes.split(|b| *b == 0).next().unwrap_or_default();
+    CString::new(bytes).unwrap_or_default()
+}
+
 #[cfg(feature = "capi")]
 /// The storage for the static strings. The CString array
 /// is just used to keep the pointers valid.
-- 
2.43.0


From 502c363c7282f43a8d972ff6d7d8e7c2ef2592c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 66/69] fix: C API: matrices are copied with their own length,
 the error is always set, null arguments are refused

---
 src/capi/rawfile.rs | 109 ++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 50 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..20f35d6 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -53,6 +53,24 @@ pub struct ORRawFile(RawFileHandle);
 /// Pointer to a [`ORRawFile`] object wrapper exported to the C API.
 pub type ORRawFileRef = *mut ORRawFile;
 
+/// Return the `result` as a pointer to be released by the caller, `null` on
+/// error. If `error` isn't `null`, the error code is stored there.
+fn into_raw<T>(result: crate::Result<T>, error: *mut or_error) -> *mut T {
+    let (ptr, code) = match result {
+        Ok(value) => (Box::into_raw(Box::new(value)), or_error::NONE),
+        Err(err) => (std::ptr::null_mut(), err.into()),
+    };
+    set_error(error, code);
+    ptr
+}
+
+/// Store the error `code`, if `error` isn't `null`.
+fn set_error(error: *mut or_error, code: or_error) {
+    if !error.is_null() {
+        unsafe { *error = code }
+    }
+}
+
 #[no_mangle]
 /// Open a new raw file located at `filename` (a path to the file system).
 ///
@@ -61,6 +79,9 @@ pub type ORRawFileRef = *mut ORRawFile;
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+    if filename.is_null() {
+        return std::ptr::null_mut();
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -81,6 +102,9 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+    if buffer.is_null() {
+        return std::ptr::null_mut();
+    }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -155,24 +179,17 @@ extern "C" fn or_rawfile_get_rawdata(
     options: u32,
     error: *mut or_error,
 ) -> ORRawDataRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
-        let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
-        rawfile
-            .0
-            .raw_data(skip_decompression)
-            .map(|rawdata| {
-                if !error.is_null() {
-                    unsafe { *error = or_error::NONE }
-                }
-                Box::into_raw(Box::new(rawdata))
-            })
-            .map_err(|err| {
-                if !error.is_null() {
-                    unsafe { *error = err.into() }
-                }
-            })
-            .unwrap_or(std::ptr::null_mut())
-    })
+    or_unwrap!(
+        rawfile,
+        {
+            set_error(error, or_error::NOT_AREF);
+            std::ptr::null_mut()
+        },
+        {
+            let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
+            into_raw(rawfile.0.raw_data(skip_decompression), error)
+        }
+    )
 }
 
 #[no_mangle]
@@ -186,23 +203,14 @@ extern "C" fn or_rawfile_get_thumbnail(
     preferred_size: u32,
     error: *mut or_error,
 ) -> ORThumbnailRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
-        rawfile
-            .0
-            .thumbnail(preferred_size)
-            .map(|rawfile| {
-                if !error.is_null() {
-                    unsafe { *error = or_error::NONE }
-                }
-                Box::into_raw(Box::new(rawfile))
-            })
-            .map_err(|err| {
-                if !error.is_null() {
-                    unsafe { *error = err.into() }
-                }
-            })
-            .unwrap_or(std::ptr::null_mut())
-    })
+    or_unwrap!(
+        rawfile,
+        {
+            set_error(error, or_error::NOT_AREF);
+            std::ptr::null_mut()
+        },
+        into_raw(rawfile.0.thumbnail(preferred_size), error)
+    )
 }
 
 #[no_mangle]
@@ -231,6 +239,9 @@ extern "C" fn or_rawfile_get_metavalue(
     key: *const std::ffi::c_char,
 ) -> ORMetaValueRef {
     or_unwrap!(rawfile, std::ptr::null_mut(), {
+        if key.is_null() {
+            return std::ptr::null_mut();
+        }
         let key = unsafe { std::ffi::CStr::from_ptr(key) };
         rawfile
             .0
@@ -250,18 +261,14 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
-        rawfile
-            .0
-            .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
-            .unwrap_or_else(|e| {
-                if !error.is_null() {
-                    unsafe { *error = e.into() };
-                }
-                std::ptr::null_mut()
-            })
-    })
+    or_unwrap!(
+        rawfile,
+        {
+            set_error(error, or_error::NOT_AREF);
+            std::ptr::null_mut()
+        },
+        into_raw(rawfile.0.rendered_image(options), error)
+    )
 }
 
 #[no_mangle]
@@ -312,12 +319,14 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
+                unsafe { *size = cm.1.len() as u32 };
                 if out_size < cm.1.len() {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                if matrix.is_null() {
+                    return or_error::INVALID_PARAM;
+                }
+                unsafe { matrix.copy_from_nonoverlapping(cm.1.as_ptr(), cm.1.len()) };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 74a65daad7ff97541e9632581b2f2395b5441d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 67/69] fix: C API: strings end with a NUL

---
 src/capi/ifd.rs       | 23 +++++++++++++++++++++--
 src/capi/metavalue.rs | 11 ++++++-----
 src/tiff/dir.rs       |  4 ++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..7cef1a4 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,6 +19,12 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use std::collections::HashMap;
+use std::ffi::CString;
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
@@ -98,11 +104,24 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
     or_unwrap!(dir, or_ifd_dir_type::INVALID, dir.type_.into())
 }
 
+/// The NUL terminated tag names that have been returned.
+static TAG_NAMES: Lazy<Mutex<HashMap<&'static str, CString>>> = Lazy::new(Default::default);
+
 #[no_mangle]
+/// Get the name of `tag`. It's an empty string if there is none, `null`
+/// if the dir is `null`. The string belongs to the library.
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
+        let name = u16::try_from(tag)
+            .map(|tag| dir.tag_name(tag))
+            .unwrap_or_default();
+        let mut names = match TAG_NAMES.lock() {
+            Ok(names) => names,
+            Err(err) => err.into_inner(),
+        };
+        names
+            .entry(name)
+            .or_insert_with(|| super::to_c_string(name.as_bytes()))
             .as_ptr() as *const std::ffi::c_char
     })
 }
diff --git a/src/capi/metavalue.rs b/src/capi/metavalue.rs
index 79c2428..25a095e 100644
--- a/src/capi/metavalue.rs
+++ b/src/capi/metavalue.rs
@@ -28,22 +28,23 @@ use once_cell::unsync::OnceCell;
 use crate::metadata;
 use crate::or_unwrap;
 
-/// Wrap a metavalue to carry a once String conversion
-pub struct ORMetaValue(metadata::Value, OnceCell<CString>);
+/// Wrap a metavalue to carry a once String conversion, and a NUL terminated
+/// copy of the string value.
+pub struct ORMetaValue(metadata::Value, OnceCell<CString>, OnceCell<CString>);
 
 impl ORMetaValue {
     /// Convert to string, and store it.
     /// Any subsequent call will always return the same string.
     pub fn to_c_string(&self, full: bool) -> &CString {
         self.1
-            .get_or_init(|| CString::new(self.0.into_string(full)).unwrap())
+            .get_or_init(|| super::to_c_string(self.0.into_string(full).as_bytes()))
     }
 }
 
 impl From<metadata::Value> for ORMetaValue {
     /// ORMetaValue constructor
     fn from(value: metadata::Value) -> Self {
-        ORMetaValue(value, OnceCell::new())
+        ORMetaValue(value, OnceCell::new(), OnceCell::new())
     }
 }
 
@@ -67,7 +68,7 @@ extern "C" fn or_metavalue_release(metavalue: ORMetaValueRef) {
 extern "C" fn or_metavalue_get_string(value: ORConstMetaValueRef) -> *const std::ffi::c_char {
     or_unwrap!(value, std::ptr::null(), {
         if let metadata::Value::String(s) = &value.0 {
-            s.as_ptr() as *const std::ffi::c_char
+            value.2.get_or_init(|| super::to_c_string(s)).as_ptr() as *const std::ffi::c_char
         } else {
             std::ptr::null()
         }
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 9c7ff49..1c1e079 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -538,6 +538,10 @@ impl Dir {
             }
         } {
             dir.id = id.to_vec();
+            if dir.id.last() != Some(&0) {
+                // The id is always NUL terminated.
+                dir.id.push(0);
+            }
             dir.mnote_offset = mnote_offset;
             dir.tag_names = tag_names;
             Ok(dir)
-- 
2.43.0


From 29fdff33db2227b75d28554dc4a509b6b65cbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 68/69] fix: C API: data of 8-bit bitmaps

---
 src/capi/bitmap.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index 849c306..2d1a379 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -21,7 +21,7 @@
 
 //! This contain all the `or_bitmapdata_*` APIs.
 
-use crate::{or_unwrap, Bitmap, DataType, RawImage};
+use crate::{or_unwrap, Bitmap, RawImage};
 
 use super::{or_data_type, or_error};
 
@@ -53,17 +53,15 @@ extern "C" fn or_bitmapdata_data(bitmap: ORBitmapDataRef) -> *const libc::c_void
     or_unwrap!(
         bitmap,
         std::ptr::null(),
-        if bitmap.data_type() == DataType::PixmapRgb16 {
-            bitmap
-                .data16()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        } else {
-            bitmap
-                .data8()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        }
+        bitmap
+            .data8()
+            .map(|data| data.as_ptr() as *const libc::c_void)
+            .or_else(|| {
+                bitmap
+                    .data16()
+                    .map(|data| data.as_ptr() as *const libc::c_void)
+            })
+            .unwrap_or_else(std::ptr::null)
     )
 }
 
-- 
2.43.0


From 633347d2d8a158f6833fb6d507f96517fd154980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 69/69] fix: C API: null arguments of or_get_file_type and
 or_rawdata_as_shot_neutral

---
 src/capi/mime.rs    | 3 +++
 src/capi/rawdata.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/capi/mime.rs b/src/capi/mime.rs
index 975d012..18029d8 100644
--- a/src/capi/mime.rs
+++ b/src/capi/mime.rs
@@ -64,6 +64,9 @@ extern "C" fn or_get_mime_types() -> *const *const c_char {
 /// A returned value of `0` denote either an error or a an unknown file.
 /// A non null invalid `rawfile` is undefined behaviour.
 extern "C" fn or_get_type_for_mime_type(mime_type: *const c_char) -> or_rawfile_type {
+    if mime_type.is_null() {
+        return Type::Unknown as u32;
+    }
     let mime_type = unsafe { CStr::from_ptr(mime_type) };
     crate::type_for_mime_type(&mime_type.to_string_lossy()).unwrap_or(Type::Unknown) as u32
 }
diff --git a/src/capi/rawdata.rs b/src/capi/rawdata.rs
index eb733ed..7e3569e 100644
--- a/src/capi/rawdata.rs
+++ b/src/capi/rawdata.rs
@@ -165,6 +165,9 @@ extern "C" fn or_rawdata_levels(
 // As shot neutral white balance.
 extern "C" fn or_rawdata_as_shot_neutral(rawdata: ORRawDataRef, wb: *mut f64) -> or_error {
     or_unwrap!(rawdata, or_error::NOT_AREF, {
+        if wb.is_null() {
+            return or_error::NOT_AREF;
+        }
         if let Some(rwb) = &rawdata.as_shot_neutral() {
             unsafe {
                 wb.copy_from_nonoverlapping(rwb.as_ptr(), 4);
-- 
2.43.0

