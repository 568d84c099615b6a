From 21fba585bbbb25785d954f25fb1e80f8992e2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 01/16] fix: set_location reads the manifest header after the
 pack header block

The manifest header was parsed at offset 60 (header without its CRC) instead
of 64, so the CRC never matched and every relocation failed.
---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..958b072 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -52,7 +52,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From 1ac0139ee775f44392ce40e4167914b1177e1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 02/16] fix: FsLocator returns the pack with the requested uuid

A recorded location names a file; since the basic creator always writes the
content pack inside a container, the file is usually not the pack itself.
Returning a reader on the whole file made every content of a container
created with TwoFiles/NoConcat unreadable, and a file holding some other pack
was read as if it was the one asked for.
---
 src/reader/locator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..265211f 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,12 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The file may be the pack itself or a container embedding it (among others).
+            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
+            Ok(container.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 4a9513f64079867e7a28ad1d2df519e9459be228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 03/16] fix: open a container embedded at the end of another
 file

The unchecked parse of the header at offset 0 was aborting the opening
whenever the file doesn't start with a Jubako pack, so the header at the end
of the file was never tried. Small files and inconsistent sizes are also
reported as errors instead of underflowing.
---
 src/reader/jubako.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..7700270 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -38,20 +38,34 @@ pub struct Container {
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     // Check at beginning
     // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+    // Any other error must not stop us now: The pack may be located at the end of the reader.
+    let head_error = match reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {
+        Ok(_) => None,
+        Err(e) if matches!(*e, ErrorKind::Version(_)) => return Err(e),
+        Err(e) => Some(e),
+    };
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
+        Err(e) => {
+            let head_error = head_error.unwrap_or(e);
             //Check at end
-            let mut buffer_reader = [0u8; 64];
+            let mut buffer_reader = [0u8; PackHeader::BLOCK_SIZE];
+            let block_size = Size::from(PackHeader::BLOCK_SIZE);
+            if reader.size() < block_size {
+                return Err(head_error);
+            }
             reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
+                .create_stream((reader.size() - block_size).into(), block_size, false)?
                 .read_exact(&mut buffer_reader)?;
             buffer_reader.reverse();
             let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-            let origin = reader.size() - pack_header.file_size;
-            (pack_header, origin.into())
+            match end_reader.parse_block_at::<PackHeader>(Offset::zero()) {
+                Ok(pack_header) if pack_header.file_size <= reader.size() => {
+                    let origin = reader.size() - pack_header.file_size;
+                    (pack_header, origin.into())
+                }
+                _ => return Err(head_error),
+            }
         }
     };
 
-- 
2.43.0


From 95e8b58339d7eb9609fdcef7c3e38837b1bf3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 04/16] fix: report ranges out of the file as errors instead of
 reading or panicking out of bounds

Offsets and sizes found in a truncated or damaged file may point outside of
it. The region was cut without check (a debug_assert only), which ended in
panics or in mmap past the end of the file (SIGBUS).
---
 src/bases/block.rs       |  5 ++++-
 src/bases/reader.rs      | 18 ++++++++++++------
 src/bases/types/range.rs | 30 +++++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 77e8d2a..c6309ad 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -18,7 +18,10 @@ pub(crate) const CRC: crc::Crc<u32> = crc::Crc::<u32>::new(&CUSTOM_ALG);
 
 /// This check a "full" slice (containing data AND crc)
 pub(crate) fn assert_slice_crc(buf: &[u8]) -> Result<()> {
-    let data_size = buf.len() - 4;
+    if buf.len() < BlockCheck::Crc32.size() {
+        return Err(format_error!("Block is too small to contain a checksum"));
+    }
+    let data_size = buf.len() - BlockCheck::Crc32.size();
     let slice = &buf[..data_size];
     let mut digest = CRC.digest();
     digest.update(slice);
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..d148045 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -9,7 +9,7 @@ use super::Parsable;
 use super::Parser;
 use super::SizedBlockParsable;
 use super::SliceParser;
-use super::{Region, Source};
+use super::{ARegion, Region, Source};
 use std::borrow::Cow;
 use std::sync::Arc;
 
@@ -98,7 +98,10 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        let region = self.region.cut_rel(offset, size);
+        // The check data must also be in the region.
+        let region = self
+            .region
+            .try_cut_rel(offset, size, block_check.size() as u64)?;
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
 
@@ -161,8 +164,10 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
-        let region = self.region.cut_rel_asize(offset, size);
-        let slice = self.source.get_slice(region, BlockCheck::None)?;
+        let region = self.region.try_cut_rel(offset, size.into(), 0)?;
+        let slice = self
+            .source
+            .get_slice(ARegion::new(region.begin(), region.end()), BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
     }
 
@@ -176,8 +181,9 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, size);
-        self.source.get_slice(region, BlockCheck::None)
+        let region = self.region.try_cut_rel(offset, size.into(), 0)?;
+        self.source
+            .get_slice(ARegion::new(region.begin(), region.end()), BlockCheck::None)
     }
 }
 
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..ca9c351 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -1,4 +1,4 @@
-use super::{ASize, EntryIdx, Offset, Size};
+use super::{ASize, EntryIdx, Error, Offset, Size};
 use std::ops::{Add, Sub};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
@@ -60,6 +60,34 @@ impl Region {
         );
         Self::new(begin, end)
     }
+
+    /// Same as `cut_rel` but return an error if `size + extra` bytes at `offset` are not in
+    /// the region.
+    ///
+    /// To use when `offset` and `size` come from the file itself.
+    #[inline]
+    pub(crate) fn try_cut_rel(
+        &self,
+        offset: Offset,
+        size: Size,
+        extra: u64,
+    ) -> super::Result<Self> {
+        let available = self.size().into_u64();
+        offset
+            .into_u64()
+            .checked_add(size.into_u64())
+            .and_then(|end| end.checked_add(extra))
+            .filter(|end| *end <= available)
+            .ok_or_else(|| -> Error {
+                format_error!(format!(
+                    "Out of region. {} + {} > {available}",
+                    offset.into_u64(),
+                    size.into_u64()
+                ))
+            })?;
+        Ok(self.cut_rel(offset, size))
+    }
+
     #[inline]
     pub(crate) fn cut_rel_asize(&self, offset: Offset, size: ASize) -> ARegion {
         let begin = self.begin() + offset;
-- 
2.43.0


From 51ffa704510dc80be1ad36237f419bd03fe629d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 05/16] fix: report malformed cluster, stores and manifest as
 errors instead of panicking

---
 src/bases/prop_type.rs                   |  2 +-
 src/bases/types/offset.rs                | 17 +++++++++++++++++
 src/reader/container_pack.rs             |  2 +-
 src/reader/content_pack/cluster.rs       | 19 +++++++++++++++----
 src/reader/directory_pack/entry_store.rs | 11 ++++++++---
 src/reader/directory_pack/value_store.rs | 21 +++++++++++++++++++--
 src/reader/jubako.rs                     | 12 ++++++------
 src/reader/manifest_pack.rs              |  9 ++++++++-
 8 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/src/bases/prop_type.rs b/src/bases/prop_type.rs
index e210e62..e4024ad 100644
--- a/src/bases/prop_type.rs
+++ b/src/bases/prop_type.rs
@@ -21,7 +21,7 @@ impl TryFrom<u8> for PropType {
             0b0001_0000 => Ok(Self::ContentAddress),
             0b0010_0000 => Ok(Self::UnsignedInt),
             0b0011_0000 => Ok(Self::SignedInt),
-            0b0100_0000 => todo!(), // Redirection and SubRange
+            // 0b0100_0000 (Redirection and SubRange) is not supported yet
             0b0101_0000 => Ok(Self::Array),
             0b1000_0000 => Ok(Self::VariantId),
             0b1010_0000 => Ok(Self::DeportedUnsignedInt),
diff --git a/src/bases/types/offset.rs b/src/bases/types/offset.rs
index 3777095..2f43849 100644
--- a/src/bases/types/offset.rs
+++ b/src/bases/types/offset.rs
@@ -32,6 +32,23 @@ impl Offset {
         self.0 as usize
     }
 
+    /// Same as `self - size` but return an error if the result would be negative.
+    ///
+    /// To use when `self` or `size` come from the file itself.
+    #[inline]
+    pub(crate) fn try_sub(self, size: Size) -> Result<Self> {
+        self.0
+            .checked_sub(size.into_u64())
+            .map(Self)
+            .ok_or_else(|| -> Error {
+                format_error!(format!(
+                    "No place for {} bytes before offset {}",
+                    size.into_u64(),
+                    self.0
+                ))
+            })
+    }
+
     #[inline]
     pub fn is_zero(self) -> bool {
         self.0 == 0
diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index b440b36..f754492 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -76,7 +76,7 @@ impl ContainerPack {
                 PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                 PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                 PackKind::Content => ContentPack::new(reader.clone())?.check()?,
-                PackKind::Container => todo!(),
+                PackKind::Container => ContainerPack::new(reader.clone())?.check()?,
             };
             if !ok {
                 return Ok(false);
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..ec928e6 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -110,6 +110,12 @@ impl Cluster {
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
         self.build_plain_reader()?;
+        if index.into_usize() + 1 >= self.blob_offsets.len() {
+            return Err(format_error!(format!(
+                "{} is not a valid blob index",
+                index.into_usize()
+            )));
+        }
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
         let size = end_offset - offset;
@@ -137,12 +143,10 @@ impl DataBlockParsable for Cluster {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (cluster_builder, raw_data_size) = intermediate;
-        let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
+        let reader = reader.cut(header_offset.try_sub(raw_data_size)?, raw_data_size, false)?;
         let reader = if cluster_builder.compression == CompressionType::None {
-            assert_eq!(cluster_builder.data_size, raw_data_size);
             ClusterReader::Plain(reader)
         } else {
-            assert!(raw_data_size.into_u64() <= usize::MAX as u64);
             ClusterReader::Raw(reader)
         };
         Ok(Cluster {
@@ -167,6 +171,7 @@ impl Parsable for ClusterBuilder {
         let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
         let uninit = blob_offsets.spare_capacity_mut();
         let mut first = true;
+        let mut previous = Offset::zero();
         for elem in &mut uninit[0..blob_count] {
             let value: Offset = if first {
                 first = false;
@@ -174,7 +179,13 @@ impl Parsable for ClusterBuilder {
             } else {
                 parser.read_usized(header.offset_size)?.into()
             };
-            assert!(value.is_valid(data_size));
+            if value < previous || !value.is_valid(data_size) {
+                return Err(format_error!(
+                    &format!("Invalid blob offset ({value})"),
+                    parser
+                ));
+            }
+            previous = value;
             elem.write(value);
         }
         unsafe { blob_offsets.set_len(blob_count) }
diff --git a/src/reader/directory_pack/entry_store.rs b/src/reader/directory_pack/entry_store.rs
index 23d048c..c56923d 100644
--- a/src/reader/directory_pack/entry_store.rs
+++ b/src/reader/directory_pack/entry_store.rs
@@ -57,7 +57,10 @@ impl Parsable for EntryStoreBuilder {
                 let layout = Layout::parse(parser)?;
                 Ok(layout)
             }
-            _ => todo!(),
+            kind => Err(format_error!(
+                &format!("Store kind {kind:?} is not supported"),
+                parser
+            )),
         }
     }
 }
@@ -72,12 +75,14 @@ impl DataBlockParsable for EntryStore {
         let entry_reader = if layout.is_entry_checked {
             let data_size =
                 layout.entry_count * (layout.entry_size + BlockCheck::Crc32.size()).into();
-            reader.cut(header_offset - data_size, data_size, false)?
+            reader.cut(header_offset.try_sub(data_size)?, data_size, false)?
         } else {
             let data_size = layout.entry_count * layout.entry_size.into();
             reader
                 .cut_check(
-                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+                    header_offset
+                        .try_sub(data_size)?
+                        .try_sub(BlockCheck::Crc32.size().into())?,
                     data_size,
                     BlockCheck::Crc32,
                 )?
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 325575d..8347fc9 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -116,11 +116,20 @@ impl Parsable for ValueStoreBuilder {
                     unimplemented!()
                 };
 
+                // A tail is never bigger than 0xFFFF bytes and each offset takes at least one byte.
+                if value_count > 0xFFFF {
+                    return Err(format_error!(
+                        &format!("Too many values in the store ({value_count})"),
+                        parser
+                    ));
+                }
+
                 // [FIXME] A lot of value means a lot of allocation.
                 // A wrong value here (or a carefully choosen one) may break our program.
                 let mut value_offsets: Vec<Offset> = Vec::with_capacity(value_count + 1);
                 let uninit = value_offsets.spare_capacity_mut();
                 let mut first = true;
+                let mut previous = Offset::zero();
                 for elem in &mut uninit[0..value_count] {
                     let value: Offset = if first {
                         first = false;
@@ -128,7 +137,13 @@ impl Parsable for ValueStoreBuilder {
                     } else {
                         parser.read_usized(offset_size)?.into()
                     };
-                    assert!(value.is_valid(data_size));
+                    if value < previous || !value.is_valid(data_size) {
+                        return Err(format_error!(
+                            &format!("Invalid value offset ({value})"),
+                            parser
+                        ));
+                    }
+                    previous = value;
                     elem.write(value);
                 }
                 unsafe { value_offsets.set_len(value_count) }
@@ -152,7 +167,9 @@ impl DataBlockParsable for ValueStore {
     ) -> Result<Self::Output> {
         let (store_builder, data_size) = intermediate;
         let reader = reader.cut_check(
-            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+            header_offset
+                .try_sub(data_size)?
+                .try_sub(BlockCheck::Crc32.size().into())?,
             data_size,
             BlockCheck::Crc32,
         )?;
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 7700270..712ac2b 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -116,15 +116,15 @@ impl Container {
         let locator = Arc::new(ChainedLocator::new(locators));
 
         let pack_info = manifest_pack.get_directory_pack_info();
-        let directory_pack = Arc::new(DirectoryPack::new(
-            locator
-                .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
-        )?);
+        let directory_reader = locator.locate(pack_info.uuid, &pack_info.pack_location)?;
+        if directory_reader.is_none() {
+            return Err(format_error!("Impossible to locate the directory_pack"));
+        }
+        let directory_pack = Arc::new(DirectoryPack::new(directory_reader.unwrap())?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..9a167f7 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -57,6 +57,9 @@ impl ManifestPack {
 
         let header =
             reader.parse_block_at::<ManifestPackHeader>(Offset::from(PackHeader::BLOCK_SIZE))?;
+        pack_header
+            .check_info_pos
+            .try_sub(header.pack_count * Size::from(PackInfo::BLOCK_SIZE))?;
         let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
         let mut directory_pack_info = None;
         let mut pack_infos: Vec<PackInfo> = Vec::with_capacity(header.pack_count.into_usize());
@@ -71,6 +74,10 @@ impl ManifestPack {
                 }
             }
         }
+        let directory_pack_info = match directory_pack_info {
+            Some(info) => info,
+            None => return Err(format_error!("No directory pack in the manifest")),
+        };
         let vs_posinfo = header.value_store_posinfo;
         let value_store = if !vs_posinfo.is_zero() {
             Some(reader.parse_data_block::<ValueStore>(vs_posinfo)?)
@@ -81,7 +88,7 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
-- 
2.43.0


From c5d66938f7f764ce8622da7d4a4ba8ff1e976479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 06/16] fix: a failing decompression is reported to the readers

Decompressing a damaged cluster was aborting the whole process (unwrap in the
rayon pool), or looping/blocking forever when the compressed stream is too
short. Readers now get an error for the bytes which cannot be decoded.
---
 src/bases/io/compression.rs | 81 +++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..56e734c 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -1,4 +1,5 @@
 use crate::bases::*;
+use log::warn;
 use std::borrow::Cow;
 use std::io::Read;
 use std::mem::ManuallyDrop;
@@ -27,40 +28,68 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+#[derive(Default)]
+struct DecodeState {
+    // The number of bytes decoded so far.
+    decoded: usize,
+    // True if nothing more will be decoded (The writer is gone, whatever is the reason).
+    ended: bool,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<DecodeState>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
 
+impl SyncVecWr {
+    fn publish(&self, decoded: usize) {
+        let (lock, cvar) = &*self.decoded;
+        lock.lock().unwrap().decoded = decoded;
+        cvar.notify_all();
+    }
+}
+
+impl Drop for SyncVecWr {
+    fn drop(&mut self) {
+        // Wake up readers. If we haven't decoded everything (because of a error),
+        // they must not wait forever.
+        let (lock, cvar) = &*self.decoded;
+        if let Ok(mut state) = lock.lock() {
+            state.ended = true;
+        }
+        cvar.notify_all();
+    }
+}
+
 struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<DecodeState>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
 unsafe impl Sync for SyncVecRd {}
 
 impl SyncVecRd {
+    /// Wait for the `end` first bytes to be decoded.
+    /// Return the number of decoded bytes, which is smaller than `end` if the decoding failed.
     #[inline]
-    pub fn wait_while<F>(&self, function: F) -> usize
-    where
-        F: Fn(&mut usize) -> bool,
-    {
+    pub fn wait_decoded(&self, end: usize) -> usize {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        cvar.wait_while(lock.lock().unwrap(), |s| s.decoded < end && !s.ended)
+            .unwrap()
+            .decoded
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().decoded
     }
 
     #[inline]
@@ -77,7 +106,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(DecodeState::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -113,14 +142,15 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
-        let (lock, cvar) = &*buffer.decoded;
-        let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
-        cvar.notify_all();
+        if read == 0 {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+        uncompressed += read;
+        buffer.publish(uncompressed);
     }
     //println!("Decompress done");
     Ok(())
@@ -139,14 +169,23 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                // In case of error, readers are informed by the drop of `write_hand`.
+                if let Err(e) = decode_to_end(decoder, write_hand, 4 * 1024) {
+                    warn!("Error while decompressing: {e}");
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        if self.buffer.wait_decoded(end) < end {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Compressed data is corrupted",
+            ));
+        }
+        Ok(())
     }
 
     #[inline]
@@ -164,7 +203,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +216,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +234,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From ad7bb2ba45861477367b9141ce9f2a4061daa541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 07/16] fix: a ByteStream made from a ByteRegion starts at the
 begining of the region

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..28364d7 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let offset = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, offset)
     }
 }
-- 
2.43.0


From 0b0432bc4514a4afc064d6afc6dd6552b3745a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 08/16] fix: size of signed properties takes negative values
 and the sign bit into account

A signed column was as wide as needed by its greatest value seen as unsigned:
200 was stored on one byte (read back as -56) and -1000 too (read as 24).
---
 src/creator/directory_pack/schema/property.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..ce164ce 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -54,6 +54,12 @@ where
     }
 }
 
+/// Map a signed value to a unsigned one needing the same number of bytes than the two's
+/// complement representation of the signed value (sign bit included).
+fn zigzag(v: i64) -> u64 {
+    ((v << 1) ^ (v >> 63)) as u64
+}
+
 #[derive(Default, Debug)]
 pub enum ValueCounter<T> {
     #[default]
@@ -96,7 +102,8 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        // The size is computed on "zigzag encoded" values (see `zigzag`)
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +249,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(zigzag(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(zigzag(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 5dacfd0858aadf14b0e74f0eb86e551a290fe2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 09/16] fix: read variants whose last properties (or all) take
 no place in the entry

The end of a variant definition was detected with the size of its properties.
A property with a default value has a null size, so entry stores having such
properties at the end of a variant, or an empty variant, couldn't be read.
---
 src/reader/directory_pack/layout/mod.rs | 49 ++++++++++---------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..d4502f8 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -3,7 +3,7 @@ mod property;
 
 use super::builder::{VariantIdBuilder, VariantIdProperty};
 // Reuse from super to allow sub module to use it.
-use super::raw_layout::RawLayout;
+use super::raw_layout::{RawLayout, RawProperty};
 use crate::bases::*;
 
 #[cfg(feature = "explorable")]
@@ -130,32 +130,28 @@ impl Parsable for Layout {
             let variant_id_offset = Offset::from(common_size);
             common_size += 1;
 
-            let mut variant_size = 0;
-            let mut variants = Vec::new();
-            let mut variants_map = HashMap::new();
-            let mut variant_def = Vec::new();
-            let mut variant_name: Option<SmallString> = None;
+            // Each variant definition starts with a VariantId and goes up to the next one.
+            // We cannot rely on the size of the properties to detect the end of a variant as
+            // properties with a default value have no size in the entry.
+            let mut variant_defs: Vec<(SmallString, Vec<RawProperty>)> = Vec::new();
             for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
+                if raw_property.is_variant_id() {
+                    // This is a special property
+                    variant_defs.push((raw_property.name, Vec::new()));
+                } else if let Some((_, variant_def)) = variant_defs.last_mut() {
+                    variant_def.push(raw_property);
+                } else {
                     return Err(format_error!(
                         "Variant definition must start with a VariantId.",
                         parser
                     ));
                 }
-                if raw_property.is_variant_id() && variant_name.is_some() {
-                    return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
-                        parser
-                    ));
-                }
-                if raw_property.is_variant_id() {
-                    // This is a special property
-                    variant_name = Some(raw_property.name);
-                    continue;
-                }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
+            }
+            let mut variants = Vec::new();
+            let mut variants_map = HashMap::new();
+            for (variant_name, variant_def) in variant_defs {
+                let variant_size = variant_def.iter().map(|p| p.size).sum::<usize>();
+                match (common_size + variant_size).cmp(&entry_size) {
                     Ordering::Greater => {
                         return Err(format_error!(
                             &format!(
@@ -165,21 +161,14 @@ impl Parsable for Layout {
                         ))
                     }
                     Ordering::Equal => {
+                        variants_map.insert(variant_name, variants.len() as u8);
                         variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
                     }
                     Ordering::Less => {
-                        /* Noting to do */
-                        continue;
+                        return Err(format_error!("We cannot have left over variant definiton."));
                     }
                 }
             }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
-            }
             if variants.len() != variant_count.into_usize() {
                 return Err(format_error!(
                     &format!(
-- 
2.43.0


From 005946b6a020eb6057c0d27b21cb8bd4282a1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 10/16] fix: creation fails instead of writing a layout which
 cannot be represented

A block tail bigger than 65535 bytes, more than 255 value stores or properties,
or an array prefix longer than 31 bytes were silently truncated, leading to
packs which cannot be read or with altered values.
---
 src/creator/directory_pack/directory_pack.rs  |  7 +++++++
 src/creator/directory_pack/layout/entry.rs    | 13 ++++++++++---
 src/creator/directory_pack/schema/property.rs |  4 ++++
 src/creator/mod.rs                            |  8 ++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..d544042 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,13 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Too many value stores ({})", self.value_stores.len()),
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..402decf 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -35,8 +35,15 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        let count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();
+        let count: u8 = count.try_into().map_err(|_| {
+            std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Too many properties in the layout ({count})"),
+            )
+        })?;
+        Ok(count.into())
     }
 }
 
@@ -45,7 +52,7 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
         written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += self.key_count()?.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index ce164ce..f9aefcb 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -201,7 +201,11 @@ impl<PN: PropertyName> Property<PN> {
         }
     }
 
+    /// # Panics
+    ///
+    /// The function panics if `fixed_array_len` is higher than 31.
     pub fn new_array(fixed_array_len: usize, store_handle: StoreHandle, name: PN) -> Self {
+        assert!(fixed_array_len <= 31);
         if fixed_array_len == 0 && store_handle.kind() == ValueStoreKind::Indexed {
             Property::IndirectArray { store_handle, name }
         } else {
diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..b4d902f 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,6 +36,14 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
+            if serializer.len() > 0xFFFF {
+                // The size is stored on 16 bits.
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    format!("Tail of a block is too big ({} bytes)", serializer.len()),
+                )
+                .into());
+            }
             let size = stream.write_serializer(serializer)?.into();
             Ok(SizedOffset { size, offset })
         }
-- 
2.43.0


From 91416b82c20d003ba55a38f4e1fbe3ae3515e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 11/16] fix: entries with equal sort keys can be sorted

Equal entries were compared as Greater whatever their order, so a store sorted
on a property with duplicated values panicked with "Cannot sort entry store".
Stores whose order depends on the positions of other entries may also need more
than 50 iterations (i.e. a tree sorted by parent).
---
 src/creator/directory_pack/entry_store.rs | 10 +++++++---
 src/creator/directory_pack/mod.rs         |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..ef615f2 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -75,16 +75,20 @@ where
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
+            // Use a stable sort: Equal entries must not move from one iteration to the next, as
+            // the order of other entries may depend on their positions.
+            self.entries.par_sort_by(compare);
             set_entry_idx(&mut self.entries);
-            let mut watchdog = 50;
+            // If the order depends on the position of other entries, each iteration put at least
+            // one more entry at its final position.
+            let mut watchdog = self.entries.len() + 1;
             while !self
                 .entries
                 .windows(2)
                 .all(|w| w[0].compare(&keys, &w[1]).is_le())
             {
                 debug!(".");
-                self.entries.par_sort_unstable_by(compare);
+                self.entries.par_sort_by(compare);
                 set_entry_idx(&mut self.entries);
                 watchdog -= 1;
                 if watchdog == 0 {
diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 48762702abfd2855b62c0965bb86faaa62278707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 12/16] fix: references to entries of a store finalized later

The width (and default value, and sort order) of a property bound to the
position of an entry was computed while the store of this entry may not be
sorted yet. The final position was then silently truncated (299 stored as 43).
---
 src/creator/directory_pack/directory_pack.rs | 24 +++++++++++-
 src/creator/directory_pack/entry_store.rs    | 41 +++++++++++++-------
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index d544042..2543db8 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -9,7 +9,7 @@ use entry_store::EntryStoreTrait;
 use std::io::{BufWriter, Seek, SeekFrom, Write};
 use value_store::StoreHandle;
 
-use log::info;
+use log::{debug, info};
 
 pub struct DirectoryPackCreator {
     app_vendor_id: VendorId,
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         if self.value_stores.len() > u8::MAX as usize {
@@ -70,6 +70,26 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        // The order of a store, as the size of the properties in any store, may depend on the
+        // position of other entries. So all entries must be sorted before finalizing the stores.
+        // Each iteration put at least one more entry at its final position.
+        let mut watchdog = self.entry_stores.iter().map(|e| e.len()).sum::<usize>() + 2;
+        loop {
+            let mut moved = false;
+            for entry_store in &mut self.entry_stores {
+                moved |= entry_store.sort();
+            }
+            if !moved {
+                break;
+            }
+            debug!(".");
+            watchdog -= 1;
+            if watchdog == 0 {
+                panic!("Cannot sort entry store");
+            }
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index ef615f2..5f12543 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,19 @@ where
 }
 
 pub trait EntryStoreTrait {
+    fn len(&self) -> usize;
+
+    /// Sort the entries (if needed) and set their idx.
+    ///
+    /// Return true if entries were not already sorted.
+    /// As the order may depend on the idx of entries (of this store or of another one), entries
+    /// may be not sorted anymore once idx have been set.
+    fn sort(&mut self) -> bool;
+
+    /// Finalize the store.
+    ///
+    /// As the layout depends on the values of the entries, all the entries of all the stores must
+    /// be at their final position.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,32 +84,30 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn len(&self) -> usize {
+        self.entries.len()
+    }
+
+    fn sort(&mut self) -> bool {
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            // Use a stable sort: Equal entries must not move from one iteration to the next, as
-            // the order of other entries may depend on their positions.
-            self.entries.par_sort_by(compare);
-            set_entry_idx(&mut self.entries);
-            // If the order depends on the position of other entries, each iteration put at least
-            // one more entry at its final position.
-            let mut watchdog = self.entries.len() + 1;
-            while !self
+            if !self
                 .entries
                 .windows(2)
-                .all(|w| w[0].compare(&keys, &w[1]).is_le())
+                .all(|w| compare(&w[0], &w[1]).is_le())
             {
-                debug!(".");
+                // Use a stable sort: Equal entries must not move from one iteration to the next, as
+                // the order of other entries may depend on their positions.
                 self.entries.par_sort_by(compare);
                 set_entry_idx(&mut self.entries);
-                watchdog -= 1;
-                if watchdog == 0 {
-                    panic!("Cannot sort entry store");
-                }
+                return true;
             }
         }
+        false
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From 9bda5b456ec832e70c9c6b87c066bce31e7069a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 13/16] fix: padding can be declared in a schema

Finalizing a store with a Padding property and at least one entry panicked
and a padding which doesn't fit in 4 bits was written as another property.
---
 src/creator/directory_pack/layout/property.rs | 7 +++++++
 src/creator/directory_pack/schema/property.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/layout/property.rs b/src/creator/directory_pack/layout/property.rs
index 92e9667..ee11254 100644
--- a/src/creator/directory_pack/layout/property.rs
+++ b/src/creator/directory_pack/layout/property.rs
@@ -278,6 +278,13 @@ impl<PN: PropertyName> Serializable for Property<PN> {
                 Ok(written)
             }
             Property::Padding(size) => {
+                if !(1..=16).contains(size) {
+                    // The size is stored on 4 bits.
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::InvalidInput,
+                        format!("Invalid padding size ({size})"),
+                    ));
+                }
                 let key_type = PropType::Padding as u8;
                 ser.write_u8(key_type + (size - 1))
             }
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index f9aefcb..44ce2a2 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -302,7 +302,7 @@ impl<PN: PropertyName> Property<PN> {
                 // Nothing to do
             }
             Self::Padding(_) => {
-                panic!("Padding cannot process a value");
+                // Nothing to do
             }
         }
     }
-- 
2.43.0


From f0e9469bffdb44e79bd8773d6beebaaaf88d806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 14/16] fix: cluster tail fits a compressed size larger than
 the data

---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..48cb2c4 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // Incompressible data may be larger once compressed: both sizes have to fit.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From cfebc4bcff0b64b034a93a5b1bb7b20a9eac49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 15/16] fix: declared size of a container pack covers its check
 block

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..933f32b 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size: Size =
+            (check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE).into();
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From 3c104124e993dae6bcb9c0736852d296e02c3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 16/16] verif: observation points for concurrent readers (cfg
 jubako_verif)

---
 src/bases/cache.rs                 |  4 ++++
 src/bases/io/compression.rs        | 31 +++++++++++++++++++++++++++---
 src/lib.rs                         |  5 +++++
 src/reader/content_pack/cluster.rs |  6 ++++++
 src/reader/content_pack/mod.rs     | 21 ++++++++++++++++++++
 src/reader/jubako.rs               | 14 ++++++++++++++
 src/verif.rs                       | 22 +++++++++++++++++++++
 7 files changed, 100 insertions(+), 3 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/bases/cache.rs b/src/bases/cache.rs
index 67fb888..dc6bc25 100644
--- a/src/bases/cache.rs
+++ b/src/bases/cache.rs
@@ -28,7 +28,11 @@ where
     pub fn get(&self, index: Source::Idx) -> Result<&Arc<Value>, Source::Error> {
         let cache_slot = &self.values[index.into()];
         if cache_slot.get().is_none() {
+            #[cfg(jubako_verif)]
+            crate::verif::at("cache.miss", self as *const Self as usize, 0, 0);
             let new_value = self.source.get_value(index)?;
+            #[cfg(jubako_verif)]
+            crate::verif::at("cache.set", self as *const Self as usize, 0, 0);
             let _ = cache_slot.set(new_value);
         }
 
diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 56e734c..5f874ec 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -36,6 +36,11 @@ struct DecodeState {
     ended: bool,
 }
 
+#[cfg(jubako_verif)]
+fn sync_point(name: &'static str, state: &Arc<(Mutex<DecodeState>, Condvar)>, a: usize, b: usize) {
+    crate::verif::at(name, Arc::as_ptr(state) as usize, a, b)
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
@@ -48,8 +53,12 @@ unsafe impl Send for SyncVecWr {}
 impl SyncVecWr {
     fn publish(&self, decoded: usize) {
         let (lock, cvar) = &*self.decoded;
+        #[cfg(jubako_verif)]
+        sync_point("sync.publish", &self.decoded, decoded, 0);
         lock.lock().unwrap().decoded = decoded;
         cvar.notify_all();
+        #[cfg(jubako_verif)]
+        sync_point("sync.notified", &self.decoded, decoded, 0);
     }
 }
 
@@ -58,10 +67,14 @@ impl Drop for SyncVecWr {
         // Wake up readers. If we haven't decoded everything (because of a error),
         // they must not wait forever.
         let (lock, cvar) = &*self.decoded;
+        #[cfg(jubako_verif)]
+        sync_point("sync.drop", &self.decoded, 0, 0);
         if let Ok(mut state) = lock.lock() {
             state.ended = true;
         }
         cvar.notify_all();
+        #[cfg(jubako_verif)]
+        sync_point("sync.gone", &self.decoded, 0, 0);
     }
 }
 
@@ -81,9 +94,15 @@ impl SyncVecRd {
     #[inline]
     pub fn wait_decoded(&self, end: usize) -> usize {
         let (lock, cvar) = &*self.decoded;
-        cvar.wait_while(lock.lock().unwrap(), |s| s.decoded < end && !s.ended)
-            .unwrap()
-            .decoded
+        #[cfg(jubako_verif)]
+        sync_point("sync.wait", &self.decoded, end, 0);
+        cvar.wait_while(lock.lock().unwrap(), |s| {
+            #[cfg(jubako_verif)]
+            sync_point("sync.test", &self.decoded, s.decoded, s.ended as usize);
+            s.decoded < end && !s.ended
+        })
+        .unwrap()
+        .decoded
     }
 
     #[inline]
@@ -99,7 +118,11 @@ impl SyncVecRd {
 
     #[inline]
     fn slice(&self) -> &[u8] {
+        #[cfg(jubako_verif)]
+        sync_point("sync.slice", &self.decoded, 0, 0);
         let size = self.current_size();
+        #[cfg(jubako_verif)]
+        sync_point("sync.sliced", &self.decoded, size, 0);
         unsafe { std::slice::from_raw_parts(self.buffer, size) }
     }
 }
@@ -120,6 +143,8 @@ fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
         total_size: size,
         decoded,
     };
+    #[cfg(jubako_verif)]
+    sync_point("sync.new", &rd.decoded, size, buffer_ptr as usize);
     (rw, rd)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 49317d2..3babd7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![cfg_attr(feature = "nightly", feature(error_generic_member_access))]
 #![cfg_attr(feature = "nightly", feature(seek_stream_len))]
+// `jubako_verif` is only set by the verification harness.
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 mod bases;
@@ -7,6 +9,9 @@ mod common;
 pub mod creator;
 pub mod reader;
 pub mod tools;
+#[cfg(jubako_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 #[cfg(feature = "clap")]
 pub mod cmd_utils;
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index ec928e6..96bf586 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -74,10 +74,14 @@ fn zstd_source(_raw_stream: ByteStream, _data_size: ASize) -> Result<Arc<dyn Sou
 
 impl Cluster {
     fn build_plain_reader(&self) -> Result<()> {
+        #[cfg(jubako_verif)]
+        crate::verif::at("cluster.plain", self as *const Self as usize, 0, 0);
         let mut cluster_reader = self.reader.write().unwrap();
         if let ClusterReader::Plain(_) = *cluster_reader {
             return Ok(());
         };
+        #[cfg(jubako_verif)]
+        crate::verif::at("cluster.decode", self as *const Self as usize, 0, 0);
 
         let raw_stream = if let ClusterReader::Raw(r) = &*cluster_reader {
             r.create_stream(Offset::zero(), r.size(), false)?
@@ -119,6 +123,8 @@ impl Cluster {
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
         let size = end_offset - offset;
+        #[cfg(jubako_verif)]
+        crate::verif::at("cluster.bytes", self as *const Self as usize, 0, 0);
         if let ClusterReader::Plain(r) = &*self.reader.read().unwrap() {
             Ok(r.get_byte_slice(offset, size).into())
         } else {
diff --git a/src/reader/content_pack/mod.rs b/src/reader/content_pack/mod.rs
index 6492f34..1afc0d7 100644
--- a/src/reader/content_pack/mod.rs
+++ b/src/reader/content_pack/mod.rs
@@ -60,11 +60,32 @@ impl ContentPack {
 
     fn _get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
         let cluster_info = self.cluster_ptrs.index(*cluster_index)?;
+        #[cfg(jubako_verif)]
+        crate::verif::at(
+            "cluster.load",
+            self as *const Self as usize,
+            cluster_index.into_usize(),
+            0,
+        );
         let cluster = self.reader.parse_data_block::<Cluster>(cluster_info)?;
+        #[cfg(jubako_verif)]
+        crate::verif::at(
+            "cluster.loaded",
+            self as *const Self as usize,
+            cluster_index.into_usize(),
+            0,
+        );
         Ok(Arc::new(cluster))
     }
 
     fn get_cluster(&self, cluster_index: ClusterIdx) -> Result<Arc<Cluster>> {
+        #[cfg(jubako_verif)]
+        crate::verif::at(
+            "cluster.get",
+            self as *const Self as usize,
+            cluster_index.into_usize(),
+            0,
+        );
         let mut cache = self.cluster_cache.lock().unwrap();
         let cached = cache.try_get_or_insert(cluster_index, || self._get_cluster(cluster_index))?;
         Ok(cached.clone())
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 712ac2b..5fc95a5 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -153,12 +153,26 @@ impl Container {
         }
         let cache_slot = &self.packs[pack_id.into_usize()];
         if cache_slot.get().is_none() {
+            #[cfg(jubako_verif)]
+            crate::verif::at(
+                "pack.miss",
+                self as *const Self as usize,
+                pack_id.into_usize(),
+                0,
+            );
             match self._get_pack(pack_id)? {
                 None => return Ok(None),
                 Some(MayMissPack::MISSING(pack_info)) => {
                     return Ok(Some(MayMissPack::MISSING(pack_info)))
                 }
                 Some(MayMissPack::FOUND(p)) => {
+                    #[cfg(jubako_verif)]
+                    crate::verif::at(
+                        "pack.set",
+                        self as *const Self as usize,
+                        pack_id.into_usize(),
+                        0,
+                    );
                     let _ = cache_slot.set(p);
                 }
             }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..3652f03
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,22 @@
+//! Observation points used by the verification harness.
+//!
+//! Only compiled with `--cfg jubako_verif`. Each point calls the hook, if there is one, in the
+//! thread which reaches the point. The hook may record the point, or delay the thread.
+use std::sync::OnceLock;
+
+/// `(point, object, a, b)`: the meaning of `a` and `b` depends of the point.
+pub type Hook = Box<dyn Fn(&'static str, usize, usize, usize) + Send + Sync>;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Set the hook (Only the first call has a effect).
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+#[inline]
+pub(crate) fn at(point: &'static str, object: usize, a: usize, b: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(point, object, a, b)
+    }
+}
-- 
2.43.0

