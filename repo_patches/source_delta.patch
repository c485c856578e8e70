From e79c0035ca0001d9a3d4ed1337cdce0188bd828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 01/18] fix: end a VobSub subtitle without stop date 5 s after
 its start

The default length was used as an absolute end time, so such a subtitle
ended at 00:00:05 whatever its start time.
---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..5644d7e 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         (
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::from(rle_image),
         )
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Self::Output {
         Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         )
     }
 }
-- 
2.43.0


From c0617e914baef9a57bba2289a004b0f6b3c26a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 02/18] fix: report an undecodable VobSub image as an error

Decoding the image of a subtitle whose run-length data is damaged panicked
on an unwrap; the iterator now yields VobSubError::Image for it.
---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 5644d7e..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 609b1d2cfd36dc86bd912fdbbcdccd5e2b7546b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 03/18] fix: accept PES headers that carry both a PTS and a DTS

ISO/IEC 13818-1 marks the PTS with 0011 and the DTS with 0001 when both
are present. They were looked for with the 0010 mark of a lone PTS, so
every such packet, and its subtitle, was silently skipped.
---
 src/vobsub/mpeg2/pes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..726350c 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,11 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        // When both are present, the `PTS` is marked with `0011` and the `DTS` with `0001`.
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From 68900ca884e56eb687d9edb5a9ab0fb7e928e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 04/18] fix: do not panic on a PGS palette or object that no
 image uses

A palette update without object (in a clearing display set, say), or a
stream that ends after a palette or inside an object split over two
segments, hit the assertions at the end of the decoding of a subtitle.
---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 19dee4d2593b576513ee2ead1f582092c3daf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/18] fix: report an unexpected PGS object sequence flag as
 an error

A fragment that does not follow its predecessor (a last one without first
one, two first ones in a row) panicked on an assertion.
---
 src/pgs/ods.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..7cc61a5 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -130,10 +130,9 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let data_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
@@ -168,7 +167,10 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let start_idx = amount_of_data_read;
             let end_idx = start_idx + (segments_size - 4);
-- 
2.43.0


From 52936d4369873fd6399938790afdfc8e96a3e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 06/18] fix: report inconsistent PGS object sizes as an error

A segment size that doesn't agree with the object data length panicked
(underflow, slice out of range, assertion), or, for a second fragment that
is too short, silently completed the object with zeros.
---
 src/pgs/ods.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index 7cc61a5..6ee3c87 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -43,6 +43,15 @@ pub enum Error {
         source: io::Error,
         buff_size: usize,
     },
+
+    /// The size of a segment doesn't match the `Object Data Length`.
+    #[error(
+        "segment size `{segment_size}` is inconsistent with the object data length `{object_size}`"
+    )]
+    InconsistentSize {
+        segment_size: usize,
+        object_size: usize,
+    },
 }
 
 #[repr(u8)]
@@ -134,13 +143,21 @@ pub fn read<Reader: BufRead + Seek>(
                 return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
             }
 
-            let data_size = read_obj_data_length(reader)?;
+            let object_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
+            let inconsistent_size = || Error::InconsistentSize {
+                segment_size: segments_size,
+                object_size,
+            };
+            let data_size = object_size.checked_sub(4).ok_or_else(inconsistent_size)?; // don't know why for now !!! Object Data Length include Width + Height ?
             let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
 
-            let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
-            let data_buff = &mut object_data.as_mut_slice()[0..read_data_size];
+            let read_data_size = segments_size
+                .checked_sub(11)
+                .ok_or_else(inconsistent_size)?; // Only read data from this segment, additional data are in the next segment, if there are any.
+            let data_buff = object_data
+                .get_mut(0..read_data_size)
+                .ok_or_else(inconsistent_size)?;
             read_object_data(reader, data_buff)?;
 
             let data = ObjectDefinitionSegmentData {
@@ -150,8 +167,9 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
+                if read_data_size != data_size {
+                    return Err(inconsistent_size());
+                }
 
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
@@ -173,8 +191,13 @@ pub fn read<Reader: BufRead + Seek>(
             }
 
             let start_idx = amount_of_data_read;
-            let end_idx = start_idx + (segments_size - 4);
-            let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
+            let read_slice = &mut data.object_data.as_mut_slice()[start_idx..];
+            if segments_size.checked_sub(4) != Some(read_slice.len()) {
+                return Err(Error::InconsistentSize {
+                    segment_size: segments_size,
+                    object_size: data.object_data.len() + 4,
+                });
+            }
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
         }
-- 
2.43.0


From 176fa1bde2a8fd1032fda70645379a7a8360d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 07/18] fix: report a PGS palette segment of invalid size as an
 error

It panicked (index out of range or assertion) instead.
---
 src/pgs/pds.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..b88cb25 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment is not the one of a list of palette entries.
+    #[error("invalid size `{0}` for a `PaletteDefinitionSegment`")]
+    InvalidSize(usize),
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +64,14 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize(segments_size));
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From ea102ba94d5ea3945946ebf1f723b558742bb634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/18] fix: look a PGS palette entry up by its id

The position of an entry was computed from the id of the first one, which
gives the wrong colors for a palette whose ids are not consecutive.
---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index b88cb25..6e634be 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From a2b035985990e3083797a4e848a755d28ffaee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 09/18] fix: do not panic on truncated or empty runs of a PGS
 image

A run cut by the end of the data ends the pixels, and a run of zero pixel
(which underflowed the count of remaining pixels) adds none.
---
 src/pgs/pgs_image.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..3d19099 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -234,7 +234,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +243,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +258,14 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 22ac7482cd6c637a2cd37a2bfa3f628d62dc4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 10/18] fix: yield exactly the pixels of a PGS image

RlePixelIterator is an ExactSizeIterator but its len() never decreased, and
encoded data with too few pixels made to_image and image panic. It now
yields width * height pixels (those without data have the default color)
and keeps count of the remaining ones.
---
 src/pgs/pgs_image.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index 3d19099..33ca5fd 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -29,6 +29,11 @@ impl RleEncodedImage {
         }
     }
 
+    // Number of pixels of the image.
+    fn nb_pixels(&self) -> usize {
+        usize::from(self.width) * usize::from(self.height)
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +45,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +86,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -173,6 +180,7 @@ pub struct RlePixelIterator<'a, C> {
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_image_pixels: usize, // pixels of the image not yet returned
     convert: PixelConversion<C>,
 }
 
@@ -185,6 +193,9 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The iterator returns the exact number of pixels of the image.
+        self.nb_image_pixels = self.nb_image_pixels.checked_sub(1)?;
+
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -200,13 +211,12 @@ where
             self.nb_remaining_pixels = nb_pixel - 1;
             Some(self.current_color)
         } else {
-            None // End of pixels
+            Some(self.default_color) // Encoded data end before the image
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_image_pixels, Some(self.nb_image_pixels))
     }
 }
 
-- 
2.43.0


From 5d55d20403535dbfa6c81fd0524ccef6c1002335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 11/18] fix: retry an interrupted read when skipping PGS data

A reader may return ErrorKind::Interrupted at any time; read_exact retries
but fill_buf does not, so the parsing failed when it came while skipping.
---
 src/pgs/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 7716139..a121382 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -137,9 +137,15 @@ where
     /// Will return `FailedSeek` if `seek` failed.
     /// Will return `InvalidSeekValue` if `to_skip` value can't be converted in i64.
     fn skip_data(&mut self, to_skip: usize) -> Result<(), ReadError> {
-        let buff = self.fill_buf().map_err(ReadError::FailedFillBuf)?;
-
-        if buff.len() >= to_skip {
+        let buff_len = loop {
+            match self.fill_buf() {
+                Ok(buff) => break buff.len(),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {} // Retry
+                Err(err) => return Err(ReadError::FailedFillBuf(err)),
+            }
+        };
+
+        if buff_len >= to_skip {
             self.consume(to_skip);
         } else {
             let to_skip = i64::try_from(to_skip).map_err(|source| ReadError::InvalidSeekValue {
-- 
2.43.0


From 7f2e76bb6d8cbdfe8b3cefd0c3ad1c830e2795a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 12/18] fix: compute the size of an Area that reaches the
 maximum coordinate

The addition of 1 to a coordinate of 65535 overflowed.
---
 src/content/area.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..f8ce28e 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
-- 
2.43.0


From 0be8d6feb3d43b4678215883153de1cf218aa8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 13/18] fix: format the smallest TimePoint

Its negation, made to format its absolute value, overflowed.
---
 src/time/time_point.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..5fd7925 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,15 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
+        // Components have the sign of the time, which can't be negated if it is `i64::MIN`.
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().unsigned_abs(),
+            self.mins_comp().unsigned_abs(),
+            self.secs_comp().unsigned_abs(),
+            self.msecs_comp().unsigned_abs()
         )
     }
 }
-- 
2.43.0


From bd578c6180fba2e12be3cf849426c04962258d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 14/18] fix: report an image that does not fit on the disk

A dumped image that fits in the write buffer was lost without an error when the
disk was full, as the buffer was flushed by its drop.
---
 src/image/utils.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/image/utils.rs b/src/image/utils.rs
index da24b27..b9d2d45 100644
--- a/src/image/utils.rs
+++ b/src/image/utils.rs
@@ -1,9 +1,9 @@
 use crate::SubtileError;
-use image::{EncodableLayout, Pixel, PixelWithColorType};
+use image::{EncodableLayout, ImageFormat, Pixel, PixelWithColorType};
 use std::{
     borrow::Borrow,
-    fs::create_dir_all,
-    io,
+    fs::{create_dir_all, File},
+    io::{self, BufWriter, Write as _},
     ops::Deref,
     path::{Path, PathBuf},
 };
@@ -85,5 +85,8 @@ where
     [Pix::Subpixel]: EncodableLayout,
     Container: Deref<Target = [Pix::Subpixel]>,
 {
-    image.save(filename)
+    let mut file = BufWriter::new(File::create(filename)?);
+    image.write_to(&mut file, ImageFormat::Png)?;
+    file.flush()?; // Errors are ignored if this is left to `drop`.
+    Ok(())
 }
-- 
2.43.0


From b36109284a645b7be0a05e66c3d99fa35d92af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 15/18] fix: report a PGS reader that fails with UnexpectedEof

A failure of this kind while a segment header was read was taken for the
end of the stream.
---
 src/pgs/segment.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 52f8b68..9a4d910 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -89,17 +89,20 @@ const HEADER_LEN: usize = 2 + 4 + 4 + 1 + 2;
 pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>, PgsError> {
     let mut buffer = [0u8; HEADER_LEN];
 
-    match reader.read_exact(&mut buffer) {
-        Ok(()) => parse_segment_header(buffer),
-        Err(err) if err.kind() == ErrorKind::UnexpectedEof => {
+    let mut len = 0;
+    while len < HEADER_LEN {
+        match reader.read(&mut buffer[len..]) {
             // Buffer is empty, just return to end parsing
-            Ok(None)
-        }
-        Err(err) => {
-            println!("{err:?}");
-            Err(PgsError::SegmentFailReadHeader)
+            Ok(0) => return Ok(None),
+            Ok(read) => len += read,
+            Err(err) if err.kind() == ErrorKind::Interrupted => {} // Retry
+            Err(err) => {
+                println!("{err:?}");
+                return Err(PgsError::SegmentFailReadHeader);
+            }
         }
     }
+    parse_segment_header(buffer)
 }
 
 fn parse_segment_header(buffer: [u8; HEADER_LEN]) -> Result<Option<SegmentHeader>, PgsError> {
-- 
2.43.0


From a5991d9e00ad14164c55b36a01621ec9ffedeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:19 +0000
Subject: [PATCH 16/18] fix: end the reading of a PGS stream when its reader
 fails

The position in the stream is lost then: subtitles were made from the end
times of two subtitles when the caller went on, and a reader that fails
again and again gave errors without end.
---
 src/pgs/mod.rs | 10 ++++++++++
 src/pgs/sup.rs | 10 +++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index a121382..7864564 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -17,7 +17,9 @@ pub use sup::SupParser;
 
 use self::segment::SegmentTypeCode;
 use std::{
+    error::Error as _,
     io::{self, BufRead, Seek},
+    iter,
     num::TryFromIntError,
     path::PathBuf,
 };
@@ -78,6 +80,14 @@ pub enum PgsError {
     MissingPalette,
 }
 
+impl PgsError {
+    /// Tell if the reader has failed, and not the content that it gave.
+    fn is_read_failure(&self) -> bool {
+        iter::successors(self.source(), |&err| err.source()).any(|err| err.is::<io::Error>())
+            || matches!(self, Self::SegmentFailReadHeader)
+    }
+}
+
 /// Error from data read for parsing.
 #[non_exhaustive]
 #[derive(Debug, Error)]
diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..a4c83da 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -14,6 +14,8 @@ where
     Decoder: PgsDecoder,
 {
     reader: Reader,
+    /// The reader has failed, its position is unknown.
+    failed: bool,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -26,6 +28,7 @@ where
     pub const fn new(reader: Reader) -> Self {
         Self {
             reader,
+            failed: false,
             phantom_data: PhantomData,
         }
     }
@@ -55,7 +58,12 @@ where
     type Item = Result<Decoder::Output, PgsError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        Decoder::parse_next(&mut self.reader).transpose()
+        if self.failed {
+            return None;
+        }
+        let item = Decoder::parse_next(&mut self.reader).transpose();
+        self.failed = matches!(&item, Some(Err(err)) if err.is_read_failure());
+        item
     }
 
     // Set lower bound to promote the allocation of a minimum number of elements.
-- 
2.43.0


From 71f29c69cb21ef9ef61ccb7a52baa371c7bdc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:46 +0000
Subject: [PATCH 17/18] fix: do not write to the standard output when a PGS
 reader fails

The debug print ended up between what the program writes there, and
panicked instead of reporting the error if it could not be written.
---
 src/pgs/segment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 9a4d910..22861d5 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -1,4 +1,5 @@
 use super::{PgsError, ReadExt as _};
+use log::warn;
 use std::{
     fmt,
     io::{BufRead, ErrorKind, Seek},
@@ -97,7 +98,7 @@ pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>,
             Ok(read) => len += read,
             Err(err) if err.kind() == ErrorKind::Interrupted => {} // Retry
             Err(err) => {
-                println!("{err:?}");
+                warn!("reading a segment header failed: {err:?}");
                 return Err(PgsError::SegmentFailReadHeader);
             }
         }
-- 
2.43.0


From 623961ec64d27929c629f28cc3ec1e039a11a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:28 +0000
Subject: [PATCH 18/18] fix: a PGS reader that has ended stays ended

It declares to be a FusedIterator, but gave subtitles after its end if its
source had grown.
---
 src/pgs/sup.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index a4c83da..f8f7b39 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -14,8 +14,8 @@ where
     Decoder: PgsDecoder,
 {
     reader: Reader,
-    /// The reader has failed, its position is unknown.
-    failed: bool,
+    /// The end is reached, or the reader has failed and its position is unknown.
+    ended: bool,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -28,7 +28,7 @@ where
     pub const fn new(reader: Reader) -> Self {
         Self {
             reader,
-            failed: false,
+            ended: false,
             phantom_data: PhantomData,
         }
     }
@@ -58,11 +58,15 @@ where
     type Item = Result<Decoder::Output, PgsError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.failed {
+        if self.ended {
             return None;
         }
         let item = Decoder::parse_next(&mut self.reader).transpose();
-        self.failed = matches!(&item, Some(Err(err)) if err.is_read_failure());
+        self.ended = match &item {
+            None => true,
+            Some(Ok(_)) => false,
+            Some(Err(err)) => err.is_read_failure(),
+        };
         item
     }
 
-- 
2.43.0

