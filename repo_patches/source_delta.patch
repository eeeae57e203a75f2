From 41fceac0196b4973125cc1624143b7d64d6613ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:46 +0000
Subject: [PATCH 01/22] fix: repacking images with non-Latin-1 file names no
 longer panics

The path prefix tree indexed a 256-entry array by Unicode scalar value;
index it by UTF-8 byte instead.
---
 xdvdfs-core/src/write/fs/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/mod.rs b/xdvdfs-core/src/write/fs/mod.rs
index aef75a2..d0d4d85 100644
--- a/xdvdfs-core/src/write/fs/mod.rs
+++ b/xdvdfs-core/src/write/fs/mod.rs
@@ -192,7 +192,7 @@ struct PathPrefixTree<T> {
 }
 
 struct PPTIter<'a, T> {
-    queue: Vec<(String, &'a PathPrefixTree<T>)>,
+    queue: Vec<(Vec<u8>, &'a PathPrefixTree<T>)>,
 }
 
 impl<'a, T> Iterator for PPTIter<'a, T> {
@@ -207,13 +207,15 @@ impl<'a, T> Iterator for PPTIter<'a, T> {
             for (ch, child) in node.children.iter().enumerate() {
                 if let Some(child) = child {
                     let mut name = name.to_owned();
-                    name.push(ch as u8 as char);
+                    name.push(ch as u8);
                     self.queue.push((name, child));
                 }
             }
 
             if let Some(record) = &node.record {
-                return Some((name.to_owned(), &record.0));
+                let name = String::from_utf8(name.to_owned())
+                    .expect("records are only stored at the end of a UTF-8 path component");
+                return Some((name, &record.0));
             }
         }
 
@@ -237,7 +239,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -258,7 +260,7 @@ impl<T> PathPrefixTree<T> {
 
         let mut component_iter = path.iter().peekable();
         while let Some(component) = component_iter.next() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &mut node.children[ch as usize];
                 node = next.as_mut()?;
             }
@@ -278,7 +280,7 @@ impl<T> PathPrefixTree<T> {
         let mut node = self;
 
         for component in path.iter() {
-            for ch in component.chars() {
+            for ch in component.bytes() {
                 let next = &node.children[ch as usize];
                 node = next.as_ref()?;
             }
@@ -294,7 +296,7 @@ impl<T> PathPrefixTree<T> {
     pub fn insert_tail(&mut self, tail: &str, val: T) -> &mut Self {
         let mut node = self;
 
-        for ch in tail.chars() {
+        for ch in tail.bytes() {
             let next = &mut node.children[ch as usize];
             node = next.get_or_insert_with(|| Box::new(Self::default()));
         }
@@ -312,7 +314,7 @@ impl<T> PathPrefixTree<T> {
 
     pub fn iter(&self) -> PPTIter<'_, T> {
         PPTIter {
-            queue: alloc::vec![(String::new(), self)],
+            queue: alloc::vec![(Vec::new(), self)],
         }
     }
 }
-- 
2.43.0


From ec44765d491178209db5a84cc86cd01a33b55b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 02/22] fix: reading past the end of an in-memory image reports
 OutOfBounds instead of panicking

---
 xdvdfs-core/src/blockdev.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index 722cf3c..c6bbeb5 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -63,6 +63,10 @@ impl BlockDeviceRead for [u8] {
         }
 
         let size = core::cmp::min(self.as_ref().len() - offset, <[u8]>::len(buffer));
+        if size < <[u8]>::len(buffer) {
+            return Err(OutOfBounds);
+        }
+
         let range = offset..(offset + size);
         buffer.copy_from_slice(&self[range]);
         Ok(())
-- 
2.43.0


From 56265782bfbdabcd7696573a943cb579beec3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 03/22] fix: partial file reads stop at the end of the file

read_data_offset ignored the start offset when clamping the size, and
returned bytes of the following data (or failed at the end of the image).
---
 xdvdfs-core/src/layout.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/layout.rs b/xdvdfs-core/src/layout.rs
index 6aaac26..6cfdce7 100644
--- a/xdvdfs-core/src/layout.rs
+++ b/xdvdfs-core/src/layout.rs
@@ -273,11 +273,12 @@ impl DirectoryEntryDiskData {
         size: u64,
         offset: u64,
     ) -> Result<alloc::boxed::Box<[u8]>, util::Error<BDR::ReadError>> {
-        let size = core::cmp::min(size, self.data.size as u64);
+        // Never read past the end of the file
+        let size = core::cmp::min(size, (self.data.size as u64).saturating_sub(offset));
         let buf = alloc::vec![0; size as usize];
         let mut buf = buf.into_boxed_slice();
 
-        if self.data.size == 0 {
+        if size == 0 {
             return Ok(buf);
         }
 
-- 
2.43.0


From 6a15d11ea56c2b56d6aa41ca31922ace71454064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 04/22] fix: compressing an image whose files do not fill whole
 sectors

The image filesystem copied past the end of the file when given an input
offset, and the CISO sector input panicked on a short final sector.
---
 xdvdfs-core/src/write/fs/sector_linear.rs | 3 ++-
 xdvdfs-core/src/write/fs/xdvdfs.rs        | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/sector_linear.rs b/xdvdfs-core/src/write/fs/sector_linear.rs
index 24af142..a21aae9 100644
--- a/xdvdfs-core/src/write/fs/sector_linear.rs
+++ b/xdvdfs-core/src/write/fs/sector_linear.rs
@@ -206,7 +206,8 @@ where
                         sector_size as u64,
                     )
                     .await?;
-                assert_eq!(bytes_read, sector_size as u64);
+                // The last sector of a file may be partially filled
+                assert!(bytes_read <= sector_size as u64);
             }
         };
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index 3de5119..f53346d 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -306,7 +306,10 @@ where
                 util::Error::NoDirent,
             ))?;
 
-        let size_to_copy = core::cmp::min(size, dirent.node.dirent.data.size as u64);
+        let size_to_copy = core::cmp::min(
+            size,
+            (dirent.node.dirent.data.size as u64).saturating_sub(input_offset),
+        );
         if size_to_copy == 0 {
             return Ok(0);
         }
-- 
2.43.0


From 1ae84c28da080ec8de32e8a200f49aab6dea6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 05/22] fix: scanning a malformed directory table reports an
 error instead of panicking

---
 xdvdfs-core/src/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 3c827a5..2b31dfc 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -63,7 +63,10 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
 
             let name_len = dirent.node.dirent.filename_length as usize;
             let name_buf = &mut dirent.name[0..name_len];
-            assert!(name_offset + name_len <= layout::SECTOR_SIZE as usize);
+            if name_offset + name_len > layout::SECTOR_SIZE as usize {
+                // Directory entries cannot cross a sector boundary
+                return Err(util::Error::NameTooLong);
+            }
             name_buf.copy_from_slice(&self.sector_buf[name_offset..(name_offset + name_len)]);
 
             // Dirent is valid, advance cursor before returning
-- 
2.43.0


From 2934de5d0284b4464ef190d56d5206437ff0eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 06/22] fix: directory scan reports the same entry offset as
 walk and lookup

The scan recorded a sector-relative offset, so the same file compared
unequal depending on how it was found (e.g. FUSE inodes differed between
readdir and lookup).
---
 xdvdfs-core/src/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 2b31dfc..559f067 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -49,7 +49,9 @@ impl<BDR: BlockDeviceRead> DirentScanIter<'_, BDR> {
             let mut buf = [0; 0xe];
             let name_offset = self.offset + 0xe;
             buf.copy_from_slice(&self.sector_buf[self.offset..name_offset]);
-            let dirent = deserialize_dirent_node(&buf, self.offset as u64)?;
+            let dirent_offset =
+                (self.sector as u64) * (layout::SECTOR_SIZE as u64) + self.offset as u64;
+            let dirent = deserialize_dirent_node(&buf, dirent_offset)?;
             let Some(mut dirent) = dirent else {
                 // If we find an empty record, but we still have sectors to go,
                 // advance the sector count and retry
-- 
2.43.0


From 565f0cbd0cd8542577836e684ab58dd1d5ca23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 07/22] fix: looking up a path of only slashes no longer panics

---
 xdvdfs-core/src/read.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/xdvdfs-core/src/read.rs b/xdvdfs-core/src/read.rs
index 559f067..dc259d0 100644
--- a/xdvdfs-core/src/read.rs
+++ b/xdvdfs-core/src/read.rs
@@ -222,15 +222,13 @@ impl DirectoryEntryTable {
         path: &str,
     ) -> Result<DirectoryEntryNode, util::Error<BDR::ReadError>> {
         debugln!("[walk_path] Called on {}", path);
-        if path.is_empty() || path == "/" {
+        let path = path.trim_start_matches('/');
+        if path.is_empty() {
             return Err(util::Error::NoDirent);
         }
 
         let mut dirent_tab = *self;
-        let mut path_iter = path
-            .trim_start_matches('/')
-            .split_terminator('/')
-            .peekable();
+        let mut path_iter = path.split_terminator('/').peekable();
 
         while let Some(segment) = path_iter.next() {
             let dirent = dirent_tab.find_dirent(dev, segment).await?;
-- 
2.43.0


From daeba5b7904c7544594b7e1f3af573c117080cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 08/22] fix: StdFilesystem copy into memory at a non-zero
 output offset

The zero fill indexed the already offset slice by the output offset again,
panicking or leaving stale bytes.
---
 xdvdfs-core/src/write/fs/stdfs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index f41179a..43b829e 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -125,7 +125,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
@@ -154,7 +154,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
 
         let dest = &mut dest[output_offset..(output_offset + size)];
         let bytes_read = Read::read(&mut file, dest)?;
-        dest[(output_offset + bytes_read)..].fill(0);
+        dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
 }
-- 
2.43.0


From 65280c1536ca2fcff1415b7bdbfdd0ef48fd4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 09/22] fix: file copies that hit the end of their input report
 an error

Unpacking or repacking a truncated image silently produced short files.
---
 xdvdfs-cli/src/cmd_unpack.rs       | 15 +++++++++++++--
 xdvdfs-core/src/write/fs/stdfs.rs  |  8 +++++++-
 xdvdfs-core/src/write/fs/xdvdfs.rs | 23 +++++++++++++++++++----
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 23e6a85..3e4288f 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -9,6 +9,15 @@ use std::{
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Fails a copy that ran into the end of a truncated image
+fn check_copied(copied: u64, size: u32) -> std::io::Result<()> {
+    if copied == size as u64 {
+        Ok(())
+    } else {
+        Err(std::io::ErrorKind::UnexpectedEof.into())
+    }
+}
+
 #[maybe_async]
 async fn copyout_directory(
     img: &mut OffsetWrapper<BufReader<File>>,
@@ -57,7 +66,8 @@ async fn copyout_directory(
             Ok(data) => {
                 let data = data.take(dirent.node.dirent.data.size as u64);
                 let mut data = std::io::BufReader::new(data);
-                std::io::copy(&mut data, &mut file)?;
+                let copied = std::io::copy(&mut data, &mut file)?;
+                check_copied(copied, dirent.node.dirent.data.size)?;
             }
             Err(err) => {
                 eprintln!("Error in fast path, falling back to slow path: {:?}", err);
@@ -143,7 +153,8 @@ pub async fn cmd_copyout(args: &CopyOutArgs) -> Result<(), anyhow::Error> {
         Ok(data) => {
             let data = data.take(dirent.node.dirent.data.size as u64);
             let mut data = std::io::BufReader::new(data);
-            std::io::copy(&mut data, &mut file)?;
+            let copied = std::io::copy(&mut data, &mut file)?;
+            check_copied(copied, dirent.node.dirent.data.size)?;
         }
         Err(err) => {
             eprintln!("Error in fast path, falling back to slow path: {:?}", err);
diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 43b829e..35ae0a5 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -97,7 +97,13 @@ where
         file.seek(SeekFrom::Start(input_offset))?;
 
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file.take(size));
-        std::io::copy(&mut file, dest)
+        let copied = std::io::copy(&mut file, dest)?;
+        if copied != size {
+            // The file is shorter than the caller expects
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
+        }
+
+        Ok(copied)
     }
 }
 
diff --git a/xdvdfs-core/src/write/fs/xdvdfs.rs b/xdvdfs-core/src/write/fs/xdvdfs.rs
index f53346d..f189ece 100644
--- a/xdvdfs-core/src/write/fs/xdvdfs.rs
+++ b/xdvdfs-core/src/write/fs/xdvdfs.rs
@@ -119,6 +119,19 @@ where
 {
 }
 
+/// Fails a copy that ran into the end of the input before copying `size` bytes
+fn check_copied<W>(
+    copied: u64,
+    size: u64,
+) -> Result<u64, XDVDFSFilesystemError<std::io::Error, W>> {
+    if copied == size {
+        Ok(copied)
+    } else {
+        let err = std::io::Error::from(std::io::ErrorKind::UnexpectedEof);
+        Err(XDVDFSFilesystemError::BlockDevReadErr(err))
+    }
+}
+
 /// Copier specialization for std::io block devices.
 /// This applies to block devices that implement Read, Seek, and Write,
 /// or block devices that implement the above and are wrapped by
@@ -150,8 +163,9 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        check_copied(copied, size)
     }
 }
 
@@ -177,8 +191,9 @@ where
 
         // Arbitrarily assign copy errors to the write side,
         // we can't differentiate them anyway
-        std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
-            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)
+        let copied = std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
+            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
+        check_copied(copied, size)
     }
 }
 
-- 
2.43.0


From 98eedda8cb020b5a753383feb7585a4a7eabf1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 10/22] fix: unpacking an image cannot write outside of the
 output directory

File names in the image were joined to the output path unchecked, so
names such as `..` or absolute paths escaped from it.
---
 xdvdfs-cli/src/cmd_unpack.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xdvdfs-cli/src/cmd_unpack.rs b/xdvdfs-cli/src/cmd_unpack.rs
index 3e4288f..15fb07d 100644
--- a/xdvdfs-cli/src/cmd_unpack.rs
+++ b/xdvdfs-cli/src/cmd_unpack.rs
@@ -1,14 +1,25 @@
 use crate::img::open_image_raw;
+use anyhow::bail;
 use clap::Args;
 use maybe_async::maybe_async;
 use std::{
     fs::File,
     io::{BufReader, Read, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
     str::FromStr,
 };
 use xdvdfs::{blockdev::OffsetWrapper, layout::DirectoryEntryTable};
 
+/// Whether a name from the image stays inside the directory it is joined to,
+/// i.e. it is not `..`, an absolute path, or a path of several components
+fn is_plain_file_name(name: &str) -> bool {
+    match Path::new(name).components().next() {
+        None => true,
+        Some(Component::Normal(component)) => component == name,
+        Some(_) => false,
+    }
+}
+
 /// Fails a copy that ran into the end of a truncated image
 fn check_copied(copied: u64, size: u32) -> std::io::Result<()> {
     if copied == size as u64 {
@@ -30,6 +41,9 @@ async fn copyout_directory(
         let dir = dir.trim_start_matches('/');
         let dirname = dest_dir.join(dir);
         let file_name = dirent.name_str::<std::io::Error>()?;
+        if !is_plain_file_name(&file_name) {
+            bail!("Image contains an invalid file name: {:?}", file_name);
+        }
         let file_path = dirname.join(&*file_name);
         let is_dir = dirent.node.dirent.is_directory();
 
-- 
2.43.0


From a09530b81d87621166df7421ca5b3e89d5800eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 11/22] fix: extract-xiso rewrite places its output inside the
 given directory

---
 xdvdfs-cli/src/exiso_compat.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdvdfs-cli/src/exiso_compat.rs b/xdvdfs-cli/src/exiso_compat.rs
index 45d2fec..e5c8556 100644
--- a/xdvdfs-cli/src/exiso_compat.rs
+++ b/xdvdfs-cli/src/exiso_compat.rs
@@ -179,9 +179,7 @@ async fn exiso_repack(
 
         // Pack using `input.old` as input, and source path as output
         let dest_path = match directory {
-            Some(d) => {
-                absolute_path(Path::new(d))?.with_file_name(source_path.file_name().unwrap())
-            }
+            Some(d) => absolute_path(Path::new(d))?.join(source_path.file_name().unwrap()),
             None => source_path,
         };
 
-- 
2.43.0


From a119e673b2d3d4951574050ed440c59e347a05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 12/22] fix: info does not overflow on child offsets of large
 directories

---
 xdvdfs-cli/src/cmd_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_info.rs b/xdvdfs-cli/src/cmd_info.rs
index 4c7c796..948c65b 100644
--- a/xdvdfs-cli/src/cmd_info.rs
+++ b/xdvdfs-cli/src/cmd_info.rs
@@ -42,7 +42,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Left Child Offset:",
         if dirent.node.left_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.left_entry_offset)
+            format!("{} bytes", 4 * dirent.node.left_entry_offset as u32)
         } else {
             String::from("None")
         }
@@ -51,7 +51,7 @@ fn print_dirent(dirent: &DirectoryEntryNode) -> Result<(), anyhow::Error> {
         "{0: <20} {1}",
         "Right Child Offset:",
         if dirent.node.right_entry_offset != 0 {
-            format!("{} bytes", 4 * dirent.node.right_entry_offset)
+            format!("{} bytes", 4 * dirent.node.right_entry_offset as u32)
         } else {
             String::from("None")
         }
-- 
2.43.0


From 626e967b6dd97c97afec553b1ca1bdf424fad2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 13/22] fix: compress compares absolute paths when guarding its
 source

---
 xdvdfs-cli/src/cmd_compress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/cmd_compress.rs b/xdvdfs-cli/src/cmd_compress.rs
index 68b55da..b5ee708 100644
--- a/xdvdfs-cli/src/cmd_compress.rs
+++ b/xdvdfs-cli/src/cmd_compress.rs
@@ -52,7 +52,7 @@ fn get_default_image_path(source_path: &Path, is_dir: bool) -> Option<PathBuf> {
 
 #[maybe_async]
 pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
-    let source_path = PathBuf::from(&args.source_path);
+    let source_path = absolute_path(Path::new(&args.source_path))?;
     let meta = std::fs::metadata(&source_path)?;
     let is_dir = meta.is_dir();
 
@@ -68,7 +68,7 @@ pub async fn cmd_compress(args: &CompressArgs) -> Result<(), anyhow::Error> {
         return Err(anyhow::anyhow!("Source and destination paths are the same"));
     }
 
-    if image_path.starts_with(&source_path) {
+    if absolute_path(&image_path)?.starts_with(&source_path) {
         return Err(anyhow::anyhow!(
             "Destination path is contained by source path"
         ));
-- 
2.43.0


From 0fcfc5645bab5bd43a67cf6cab3e38d1a3853048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 14/22] fix: report errors from writing the end of a packed
 image

---
 xdvdfs-cli/src/cmd_build_image.rs | 2 ++
 xdvdfs-cli/src/cmd_pack.rs        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xdvdfs-cli/src/cmd_build_image.rs b/xdvdfs-cli/src/cmd_build_image.rs
index 90dddbc..a11ec9c 100644
--- a/xdvdfs-cli/src/cmd_build_image.rs
+++ b/xdvdfs-cli/src/cmd_build_image.rs
@@ -244,6 +244,8 @@ pub async fn cmd_build_image(args: &BuildImageArgs) -> Result<(), anyhow::Error>
 
     write::img::create_xdvdfs_image(&mut remapfs, &mut image, progress_callback).await?;
 
+    // Dropping the writer would ignore errors from writing out its buffer
+    std::io::Write::flush(&mut image)?;
     Ok(())
 }
 
diff --git a/xdvdfs-cli/src/cmd_pack.rs b/xdvdfs-cli/src/cmd_pack.rs
index 2605c8e..86c0b8f 100644
--- a/xdvdfs-cli/src/cmd_pack.rs
+++ b/xdvdfs-cli/src/cmd_pack.rs
@@ -99,5 +99,7 @@ pub async fn cmd_pack_path(source_path: &Path, image_path: &Path) -> Result<(),
         return Err(anyhow::anyhow!("Symlink image sources are not supported"));
     }
 
+    // Dropping the writer would ignore errors from writing out its buffer
+    std::io::Write::flush(&mut image)?;
     Ok(())
 }
-- 
2.43.0


From 77cdc839b3b6c1f7012f39fb92e1f4855f78c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 15/22] fix: reading compressed images at offsets inside of a
 block

---
 xdvdfs-cli/src/img.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xdvdfs-cli/src/img.rs b/xdvdfs-cli/src/img.rs
index f570ff6..797466f 100644
--- a/xdvdfs-cli/src/img.rs
+++ b/xdvdfs-cli/src/img.rs
@@ -6,6 +6,7 @@ use std::{
     path::{Path, PathBuf},
 };
 use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
+use xdvdfs::layout::SECTOR_SIZE;
 
 pub struct CSOBlockDevice<R: ciso::read::Read<ReadError = std::io::Error>> {
     inner: CSOReader<std::io::Error, R>,
@@ -19,13 +20,24 @@ where
     type ReadError = std::io::Error;
 
     async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), std::io::Error> {
+        // The reader panics past the end of the image, and only supports
+        // reads starting at a block boundary
+        let end = offset.checked_add(buffer.len() as u64);
+        if end.is_none_or(|end| end > self.inner.file_size()) {
+            return Err(std::io::ErrorKind::UnexpectedEof.into());
+        }
+
+        let skip = (offset % SECTOR_SIZE as u64) as usize;
+        let mut data = vec![0; skip + buffer.len()];
         self.inner
-            .read_offset(offset, buffer)
+            .read_offset(offset - skip as u64, &mut data)
             .await
             .map_err(|e| match e {
                 ciso::layout::Error::Other(e) => e,
                 e => std::io::Error::new(std::io::ErrorKind::Other, e),
-            })
+            })?;
+        buffer.copy_from_slice(&data[skip..]);
+        Ok(())
     }
 }
 
-- 
2.43.0


From 679becc0e9675b288911fe15e1bf34b6dbee9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:19 +0000
Subject: [PATCH 16/22] fix: copying host files into memory checks that they
 fit

---
 xdvdfs-core/src/write/fs/stdfs.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 35ae0a5..726f856 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -107,6 +107,18 @@ where
     }
 }
 
+/// Range of `size` bytes at `offset` in a buffer of `len` bytes, if it fits there.
+/// An empty range fits everywhere.
+fn memory_range(offset: u64, size: u64, len: usize) -> Option<core::ops::Range<usize>> {
+    if size == 0 {
+        return Some(0..0);
+    }
+
+    let start = usize::try_from(offset).ok()?;
+    let end = start.checked_add(usize::try_from(size).ok()?)?;
+    (end <= len).then_some(start..end)
+}
+
 #[maybe_async]
 impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
     type Error = std::io::Error;
@@ -126,10 +138,10 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);
         file.seek(SeekFrom::Start(input_offset))?;
 
-        let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
-
-        let dest = &mut dest[output_offset..(output_offset + size)];
+        let dest = match memory_range(output_offset, size, <[u8]>::len(dest)) {
+            Some(range) => &mut dest[range],
+            None => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero)),
+        };
         let bytes_read = Read::read(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
@@ -155,10 +167,10 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);
         file.seek(SeekFrom::Start(input_offset))?;
 
-        let output_offset = output_offset as usize;
-        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);
-
-        let dest = &mut dest[output_offset..(output_offset + size)];
+        let dest = match memory_range(output_offset, size, <[u8]>::len(dest)) {
+            Some(range) => &mut dest[range],
+            None => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero)),
+        };
         let bytes_read = Read::read(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
-- 
2.43.0


From 750bb9ff0f09218befde8e7e98436576318949b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:13 +0000
Subject: [PATCH 17/22] fix: refuse images that do not fit 32-bit sector
 numbers

---
 xdvdfs-core/src/write/dirtab.rs |  2 +-
 xdvdfs-core/src/write/img.rs    |  2 +-
 xdvdfs-core/src/write/mod.rs    |  2 ++
 xdvdfs-core/src/write/sector.rs | 12 ++++++++----
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/xdvdfs-core/src/write/dirtab.rs b/xdvdfs-core/src/write/dirtab.rs
index 22edf31..da3b73f 100644
--- a/xdvdfs-core/src/write/dirtab.rs
+++ b/xdvdfs-core/src/write/dirtab.rs
@@ -189,7 +189,7 @@ impl DirectoryEntryTableWriter {
                 dirent,
             };
 
-            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64);
+            let sector = allocator.allocate_contiguous(dirent.dirent.data.size as u64)?;
             dirent.dirent.data.sector = sector;
 
             file_listing.push(FileListingEntry {
diff --git a/xdvdfs-core/src/write/img.rs b/xdvdfs-core/src/write/img.rs
index 4e3499e..f361a55 100644
--- a/xdvdfs-core/src/write/img.rs
+++ b/xdvdfs-core/src/write/img.rs
@@ -137,7 +137,7 @@ pub async fn create_xdvdfs_image<
         .first_key_value()
         .expect("should always have one dirent at minimum (root)");
     let root_dirtab_size = root_dirtab.1.dirtab_size();
-    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64);
+    let root_sector = sector_allocator.allocate_contiguous(root_dirtab_size as u64)?;
     let root_table = layout::DirectoryEntryTable::new(root_dirtab_size, root_sector);
     dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);
 
diff --git a/xdvdfs-core/src/write/mod.rs b/xdvdfs-core/src/write/mod.rs
index d269ecb..b07e9a8 100644
--- a/xdvdfs-core/src/write/mod.rs
+++ b/xdvdfs-core/src/write/mod.rs
@@ -18,6 +18,7 @@ pub enum FileStructureError {
     DuplicateFileName,
     TooManyDirectoryEntries,
     FileTooLarge,
+    ImageTooLarge,
 }
 
 #[derive(Debug)]
@@ -43,6 +44,7 @@ impl FileStructureError {
             Self::DuplicateFileName => "Duplicate file name",
             Self::TooManyDirectoryEntries => "Too many entries in directory",
             Self::FileTooLarge => "File is too large",
+            Self::ImageTooLarge => "Image is too large",
         }
     }
 }
diff --git a/xdvdfs-core/src/write/sector.rs b/xdvdfs-core/src/write/sector.rs
index 85715d9..53c8502 100644
--- a/xdvdfs-core/src/write/sector.rs
+++ b/xdvdfs-core/src/write/sector.rs
@@ -1,4 +1,5 @@
 use crate::layout::SECTOR_SIZE;
+use crate::write::FileStructureError;
 
 pub struct SectorAllocator {
     next_free: u32,
@@ -29,11 +30,14 @@ pub fn required_sectors(len: u64) -> u32 {
 
 impl SectorAllocator {
     /// Allocates a contiguous set of sectors, big enough to fit `bytes`.
-    /// Returns the number of the first sector in the allocation
-    pub fn allocate_contiguous(&mut self, bytes: u64) -> u32 {
+    /// Returns the number of the first sector in the allocation, or an error if
+    /// the image would have more sectors than can be addressed
+    pub fn allocate_contiguous(&mut self, bytes: u64) -> Result<u32, FileStructureError> {
         let sectors = required_sectors(bytes);
         let allocation = self.next_free;
-        self.next_free += sectors;
-        allocation
+        self.next_free = allocation
+            .checked_add(sectors)
+            .ok_or(FileStructureError::ImageTooLarge)?;
+        Ok(allocation)
     }
 }
-- 
2.43.0


From 84d1a22632253d8d5c6a3be89cd643b1492c0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 18/22] fix: substitute captures into a rewrite in one pass

Captured host names that contain braces were substituted again, and
indices with leading zeros were left in place.
---
 xdvdfs-core/src/write/fs/remap.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 8305b05..14bdf24 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -229,12 +229,17 @@ where
                     continue;
                 }
 
-                let mut rewrite = cfg.map_rules[idx].1.clone();
-                let match_indices = Self::find_match_indices(&rewrite)?;
+                // Substitute in a single pass, as the matched text may itself contain braces
+                let mut rewrite = String::new();
+                let mut rest = cfg.map_rules[idx].1.as_str();
+                let match_indices = Self::find_match_indices(rest)?;
                 for index in match_indices {
-                    let replace = matched.get(index).unwrap_or("");
-                    rewrite = rewrite.replace(&alloc::format!("{{{index}}}"), replace);
+                    let (literal, tail) = rest.split_once('{').unwrap_or((rest, ""));
+                    rewrite.push_str(literal);
+                    rewrite.push_str(matched.get(index).unwrap_or(""));
+                    rest = tail.split_once('}').map_or("", |(_, rest)| rest);
                 }
+                rewrite.push_str(rest);
 
                 // If this path matched a prefix (e.g. the rule "bin") and has a suffix (e.g.
                 // "/default.xbe"), then we need to re-add the suffix to the rewritten prefix
-- 
2.43.0


From 01bfff61a5478780b9a3a5f5b33da054595b16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 19/22] fix: keep the leading dot of a rewritten name

A rewrite whose result starts with a dotted name, such as "{0}" for the
host file ".x", lost the dot.
---
 xdvdfs-core/src/write/fs/remap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 14bdf24..61a527c 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -248,11 +248,12 @@ where
                         alloc::format!("{}{}", rewrite.trim_end_matches('/'), suffix.as_string());
                 }
 
+                // Leading "." components do not name anything in the image, but names
+                // starting with a dot do
                 let rewrite = PathVec::from_iter(
                     rewrite
-                        .trim_start_matches('.')
-                        .trim_start_matches('/')
-                        .split('/'),
+                        .split('/')
+                        .skip_while(|component| matches!(*component, "" | "." | "..")),
                 );
                 rewritten_path = Some(rewrite);
             }
-- 
2.43.0


From 08e02495e460a69b86c57f45d20184bd19288c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 20/22] fix: refuse nested braces in a rewrite and survive huge
 indices

"{1{2}" was taken for index 12, and an index that does not fit
overflowed.
---
 xdvdfs-core/src/write/fs/remap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/remap.rs b/xdvdfs-core/src/write/fs/remap.rs
index 61a527c..5a21d96 100644
--- a/xdvdfs-core/src/write/fs/remap.rs
+++ b/xdvdfs-core/src/write/fs/remap.rs
@@ -114,7 +114,7 @@ where
 
         for (idx, c) in rewrite.chars().enumerate() {
             // TODO: Allow these to be escaped. Are {} characters valid anyway?
-            if c == '{' {
+            if c == '{' && !matching {
                 matching = true;
                 continue;
             }
@@ -131,8 +131,9 @@ where
             }
 
             if let Some(digit) = c.to_digit(10) {
-                match_index *= 10;
-                match_index += digit as usize;
+                match_index = match_index
+                    .saturating_mul(10)
+                    .saturating_add(digit as usize);
                 continue;
             }
 
-- 
2.43.0


From c2ea85a895c748b6d126122b585f5d21a60d4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 21/22] fix: short reads of host files while compressing stored
 zeros

---
 xdvdfs-core/src/write/fs/stdfs.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/write/fs/stdfs.rs b/xdvdfs-core/src/write/fs/stdfs.rs
index 726f856..cd24097 100644
--- a/xdvdfs-core/src/write/fs/stdfs.rs
+++ b/xdvdfs-core/src/write/fs/stdfs.rs
@@ -119,6 +119,22 @@ fn memory_range(offset: u64, size: u64, len: usize) -> Option<core::ops::Range<u
     (end <= len).then_some(start..end)
 }
 
+/// Reads until `buf` is full or the input ends, as a single read may return
+/// less than what is left. Returns the number of bytes read.
+fn read_available<R: std::io::Read>(src: &mut R, buf: &mut [u8]) -> std::io::Result<usize> {
+    let mut len = 0;
+    while len < <[u8]>::len(buf) {
+        match src.read(&mut buf[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+
+    Ok(len)
+}
+
 #[maybe_async]
 impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
     type Error = std::io::Error;
@@ -131,7 +147,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
         output_offset: u64,
         size: u64,
     ) -> Result<u64, std::io::Error> {
-        use std::io::{Read, Seek, SeekFrom};
+        use std::io::{Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
         let file = std::fs::File::open(src)?;
@@ -142,7 +158,7 @@ impl FilesystemCopier<alloc::boxed::Box<[u8]>> for StdFilesystem {
             Some(range) => &mut dest[range],
             None => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero)),
         };
-        let bytes_read = Read::read(&mut file, dest)?;
+        let bytes_read = read_available(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
@@ -160,7 +176,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
         output_offset: u64,
         size: u64,
     ) -> Result<u64, std::io::Error> {
-        use std::io::{Read, Seek, SeekFrom};
+        use std::io::{Seek, SeekFrom};
 
         let src = src.as_path_buf(&self.root);
         let file = std::fs::File::open(src)?;
@@ -171,7 +187,7 @@ impl FilesystemCopier<[u8]> for StdFilesystem {
             Some(range) => &mut dest[range],
             None => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero)),
         };
-        let bytes_read = Read::read(&mut file, dest)?;
+        let bytes_read = read_available(&mut file, dest)?;
         dest[bytes_read..].fill(0);
         Ok(<[u8]>::len(dest) as u64)
     }
-- 
2.43.0


From 8a5b343b47a86fcaf86f21944bdc5f4924bbd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 22/22] fix: position reported by a seek in an image at an
 offset

---
 xdvdfs-core/src/blockdev.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xdvdfs-core/src/blockdev.rs b/xdvdfs-core/src/blockdev.rs
index c6bbeb5..74897c5 100644
--- a/xdvdfs-core/src/blockdev.rs
+++ b/xdvdfs-core/src/blockdev.rs
@@ -221,10 +221,13 @@ where
 {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
         use std::io::SeekFrom;
-        match pos {
-            SeekFrom::Start(pos) => self.inner.seek(SeekFrom::Start(self.offset + pos)),
-            pos => self.inner.seek(pos),
-        }
+        let pos = match pos {
+            SeekFrom::Start(pos) => SeekFrom::Start(self.offset + pos),
+            pos => pos,
+        };
+
+        // The position is counted from the start of the image, too
+        Ok(self.inner.seek(pos)?.saturating_sub(self.offset))
     }
 }
 
-- 
2.43.0

