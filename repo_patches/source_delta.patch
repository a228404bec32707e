From 08eb393c047083678856b2d2e5f14dde508ae9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 01/18] fix: keep volumes by number, so that counts and huge
 numbers are right

---
 src/collections/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..d4b8029 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,8 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    // volume number -> file name
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -142,9 +144,7 @@ impl BackupSet {
 
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
-        self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+        self.volumes_paths.get(&volume_num).map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +238,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +259,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From f80b46cfdd378c7d5378e8f7bf0b132cfcf94728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 02/18] fix: reject timestamps that are not spelled exactly as
 duplicity does

---
 src/timefmt.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..8f3def8 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -44,9 +44,24 @@ pub struct PrettyDisplay(Tm);
 /// An example of such a timestamp is "19881211t152000z" which represents the date
 /// `1988-12-11T15:20:00Z` in the UTC time zone.
 pub fn parse_time_str(s: &str) -> Option<Timespec> {
-    time::strptime(s, "%Y%m%dt%H%M%S%Z")
-        .ok()
-        .map(|tm| tm.to_timespec())
+    let time = time::strptime(s, "%Y%m%dt%H%M%Sz").ok()?.to_timespec();
+    // the parser is lenient (e.g. it accepts the 30th of February, or missing digits): make sure
+    // that the string is exactly how the resulting time is spelled
+    let tm = time::at_utc(time);
+    let spelled = format!(
+        "{:04}{:02}{:02}t{:02}{:02}{:02}z",
+        tm.tm_year + 1900,
+        tm.tm_mon + 1,
+        tm.tm_mday,
+        tm.tm_hour,
+        tm.tm_min,
+        tm.tm_sec
+    );
+    if spelled == s {
+        Some(time)
+    } else {
+        None
+    }
 }
 
 impl TimeDisplay for Timespec {
-- 
2.43.0


From d9a7910934d467077c40691e3e72daf23d6136ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 03/18] fix: do not let the listing order decide flags,
 manifests and chains

---
 src/collections/file_naming.rs | 12 ++++++++++
 src/collections/mod.rs         | 44 ++++++++++++++--------------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/collections/file_naming.rs b/src/collections/file_naming.rs
index 5d65aeb..4e75c8c 100644
--- a/src/collections/file_naming.rs
+++ b/src/collections/file_naming.rs
@@ -94,6 +94,18 @@ impl Type {
     }
 }
 
+impl Type {
+    pub fn is_partial(&self) -> bool {
+        match *self {
+            Type::FullManifest { partial, .. }
+            | Type::IncManifest { partial, .. }
+            | Type::FullSig { partial, .. }
+            | Type::NewSig { partial, .. } => partial,
+            Type::Full { .. } | Type::Inc { .. } => false,
+        }
+    }
+}
+
 impl FileNameParser {
     pub fn new() -> Self {
         FileNameParser {
diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index d4b8029..769c14b 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -221,22 +221,11 @@ impl BackupSet {
                 end_time: end_time,
             },
         };
-        // set partial
-        let partial = {
-            match fname.info.tp {
-                fnm::Type::FullManifest { partial, .. }
-                | fnm::Type::IncManifest { partial, .. }
-                | fnm::Type::FullSig { partial, .. }
-                | fnm::Type::NewSig { partial, .. } => partial,
-                _ => false,
-            }
-        };
-
         let mut result = BackupSet {
             tp: tp,
-            partial: partial,
-            compressed: fname.info.compressed,
-            encrypted: fname.info.encrypted,
+            partial: false,
+            compressed: false,
+            encrypted: false,
             manifest_path: String::new(),
             volumes_paths: BTreeMap::new(),
         };
@@ -247,8 +236,8 @@ impl BackupSet {
     /// Adds a filename to given set. Return true if it fits.
     ///
     /// The filename will match the given set if it has the right
-    /// times and is of the right type. The information will be set
-    /// from the first filename given.
+    /// times and is of the right type. If more than one manifest is
+    /// given, the first one is kept.
     fn add_filename(&mut self, file_info: &FileNameInfo) -> bool {
         let pr = &file_info.info;
         let fname = file_info.file_name;
@@ -262,20 +251,18 @@ impl BackupSet {
                     self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
-                    self.manifest_path = fname.to_owned();
+                    if self.manifest_path.is_empty() {
+                        self.manifest_path = fname.to_owned();
+                    }
                 }
                 _ => (),
             }
-            self.fix_encrypted(pr.encrypted);
+            self.partial |= pr.tp.is_partial();
+            self.compressed |= pr.compressed;
+            self.encrypted |= pr.encrypted;
             true
         }
     }
-
-    fn fix_encrypted(&mut self, pr_encrypted: bool) {
-        if self.encrypted != pr_encrypted && self.partial && pr_encrypted {
-            self.encrypted = pr_encrypted;
-        }
-    }
 }
 
 impl Display for BackupSet {
@@ -565,14 +552,19 @@ where
     E: AsRef<Path> + 'a,
 {
     let parser = FileNameParser::new();
-    filenames
+    let mut infos = filenames
         .into_iter()
         .filter_map(|path| path.as_ref().to_str())
         .filter_map(|name| match parser.parse(name) {
             Some(info) => Some(FileNameInfo::new(name, info)),
             None => None,
         })
-        .collect()
+        .collect::<Vec<_>>();
+    // the result must not depend on the order in which the files are listed;
+    // complete files come first, so that they are preferred to the partial ones
+    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));
+    infos.dedup_by_key(|f| f.file_name);
+    infos
 }
 
 fn compute_backup_chains(fname_infos: &[FileNameInfo]) -> Vec<BackupChain> {
-- 
2.43.0


From 0db075bda1be15752bc8a97684c3b4f23d5dcf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 04/18] fix: compare paths component by component when merging
 signatures

---
 src/signatures.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..8394b80 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -230,17 +230,19 @@ impl Chain {
                     index: snapshot_id,
                 };
                 // find the current path in the old snapshots
-                // note: they are ordered
+                // note: they are ordered component by component, so they must be compared as paths
+                // and not as bytes (e.g. `a/b` comes before `a.b`)
+                let path = RawPath::from_bytes(path.to_owned());
                 let position = {
                     let mut position: Option<&mut PathSnapshots> = None;
                     loop {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
-                            let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            let old_path = &path_snapshots.path;
+                            if *old_path == path {
                                 // this path is already present in old snapshots: update them
                                 found = true;
-                            } else if old_path > path {
+                            } else if *old_path > path {
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
                                 break;
@@ -263,7 +265,7 @@ impl Chain {
                 } else {
                     // the path is not present in the old snapshots: add to new list
                     new_files.push(PathSnapshots {
-                        path: RawPath::from_bytes(path.to_owned()),
+                        path: path,
                         snapshots: vec![new_snapshot],
                     });
                 }
-- 
2.43.0


From 7467c7c96dd681324c72c82b3e89005c8579ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 05/18] fix: count snapshots without a limit of 255, and agree
 on the remaining length

---
 src/signatures.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 8394b80..140e9c2 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -24,7 +24,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -33,20 +33,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -105,7 +105,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -187,7 +187,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -299,31 +299,19 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
-        if id < self.chain.num_snapshots {
-            self.snapshot_id = id + 1;
-            Some(Snapshot {
-                chain: self.chain,
-                index: id,
-            })
-        } else {
-            None
-        }
+        // the skipped elements are consumed, even if there are not enough of them
+        self.snapshot_id += n.min(self.len());
+        self.next()
     }
-}
 
-impl<'a> ExactSizeIterator for Snapshots<'a> {
-    fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.chain.num_snapshots - self.snapshot_id;
+        (len, Some(len))
     }
 }
 
+impl<'a> ExactSizeIterator for Snapshots<'a> {}
+
 impl<'a> Snapshot<'a> {
     /// Returns the files inside this backup snapshot.
     pub fn files(&self) -> SnapshotEntries<'a> {
-- 
2.43.0


From 2c1f6042c4f7df2a44e43ae5a3397ea667c97b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 06/18] fix: keep owner names as recorded by each snapshot, and
 unrecorded ones absent

---
 src/signatures.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 140e9c2..8d4fdcf 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -63,6 +63,8 @@ pub struct SnapshotEntriesDisplay<'a>(SnapshotEntries<'a>);
 pub struct Entry<'a> {
     path: &'a RawPath,
     info: &'a PathInfo,
+    // the snapshot that recorded the entry
+    index: usize,
     ug_map: &'a UserGroupMap,
 }
 
@@ -121,8 +123,10 @@ struct PathInfo {
 
 #[derive(Debug)]
 struct UserGroupMap {
-    uid_map: HashMap<u64, String>,
-    gid_map: HashMap<u64, String>,
+    // the names are the ones known when the snapshot was taken,
+    // so they are kept by snapshot index and id
+    uid_map: HashMap<(usize, u64), String>,
+    gid_map: HashMap<(usize, u64), String>,
 }
 
 #[derive(Debug)]
@@ -205,10 +209,10 @@ impl Chain {
                         let header = tarfile.header();
                         let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
                         if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
-                            self.ug_map.add_user(uid, name.to_owned());
+                            self.ug_map.add_user(snapshot_id, uid, name.to_owned());
                         }
                         if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
-                            self.ug_map.add_group(gid, name.to_owned());
+                            self.ug_map.add_group(snapshot_id, gid, name.to_owned());
                         }
                         let link = tarfile
                             .link_name_bytes()
@@ -357,6 +361,7 @@ impl<'a> Iterator for SnapshotEntries<'a> {
                     return Some(Entry {
                         path: &path_snapshots.path,
                         info: info,
+                        index: s.index,
                         ug_map: &self.chain.ug_map,
                     });
                 }
@@ -412,14 +417,16 @@ impl<'a> Entry<'a> {
 
     /// Returns the name of the owner user.
     pub fn username(&self) -> Option<&'a str> {
-        self.info.uid.and_then(|uid| self.ug_map.get_user_name(uid))
+        self.info
+            .uid
+            .and_then(|uid| self.ug_map.get_user_name(self.index, uid))
     }
 
     /// Returns the name of the group.
     pub fn groupname(&self) -> Option<&'a str> {
         self.info
             .gid
-            .and_then(|gid| self.ug_map.get_group_name(gid))
+            .and_then(|gid| self.ug_map.get_group_name(self.index, gid))
     }
 
     /// Returns the last modification time.
@@ -508,20 +515,21 @@ impl UserGroupMap {
         }
     }
 
-    pub fn add_user(&mut self, uid: u64, name: String) -> bool {
-        self.uid_map.insert(uid, name).is_none()
+    pub fn add_user(&mut self, snapshot_id: usize, uid: u64, name: String) -> bool {
+        // an empty name means that the name is not known
+        !name.is_empty() && self.uid_map.insert((snapshot_id, uid), name).is_none()
     }
 
-    pub fn add_group(&mut self, gid: u64, name: String) -> bool {
-        self.gid_map.insert(gid, name).is_none()
+    pub fn add_group(&mut self, snapshot_id: usize, gid: u64, name: String) -> bool {
+        !name.is_empty() && self.gid_map.insert((snapshot_id, gid), name).is_none()
     }
 
-    pub fn get_user_name(&self, uid: u64) -> Option<&str> {
-        self.uid_map.get(&uid).map(AsRef::as_ref)
+    pub fn get_user_name(&self, snapshot_id: usize, uid: u64) -> Option<&str> {
+        self.uid_map.get(&(snapshot_id, uid)).map(AsRef::as_ref)
     }
 
-    pub fn get_group_name(&self, gid: u64) -> Option<&str> {
-        self.gid_map.get(&gid).map(AsRef::as_ref)
+    pub fn get_group_name(&self, snapshot_id: usize, gid: u64) -> Option<&str> {
+        self.gid_map.get(&(snapshot_id, gid)).map(AsRef::as_ref)
     }
 }
 
-- 
2.43.0


From 081329ea5973ce111fa68fc0d854420a26162523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 07/18] fix: compute size hints from the 12 byte signature
 header without overflow

---
 src/signatures.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 8d4fdcf..0853091 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -619,23 +619,27 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         // read the header
         let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
         let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
-        let sign_block_len_bytes = 4 + ss_len;
-        // the remaining part of the file are blocks
-        let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let sign_block_len_bytes = ss_len.checked_add(4)?;
+        // the remaining part of the file, after the 12 bytes header, are blocks
+        let blocks_len_bytes = (file.size() as usize).checked_sub(12)?;
+        let num_blocks = blocks_len_bytes / sign_block_len_bytes;
+        if file_block_len_bytes == 0 || blocks_len_bytes % sign_block_len_bytes != 0 {
+            // not a valid signature
+            return None;
+        }
 
-        let max_file_len = file_block_len_bytes * num_blocks;
-        if max_file_len > file_block_len_bytes {
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
+        // the last block could be shorter than the others
+        if num_blocks > 0 {
             Some((max_file_len - file_block_len_bytes + 1, max_file_len))
         } else {
-            // avoid underflow
-            Some((0, max_file_len))
+            Some((0, 0))
         }
     }
 }
 
 fn compute_size_hint_snapshot<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
-    let bytes = file.header().size().ok()? as usize;
+    let bytes = file.size() as usize;
     Some((bytes, bytes))
 }
 
-- 
2.43.0


From 5049de6aa0feb2b8bb5bea4511496ceab09495e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 08/18] fix: do not panic when entries or a manifest are
 requested again while still in use

---
 src/lib.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..7fce480 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,24 +344,20 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
-                                         corresponding signature",
-                    ));
-                }
+        // do not borrow mutably when there is a cached value, because it could be in use
+        if self.signatures[chain_id].borrow().is_none() {
+            // compute signatures now
+            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
+            } else {
+                return Err(not_found(
+                    "The given backup snapshot does not have a \
+                     corresponding signature",
+                ));
             }
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.signatures[chain_id].borrow())
     }
@@ -371,17 +367,14 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        // do not borrow mutably when there is a cached value, because it could be in use
+        if self.manifests[id].borrow().is_none() {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let manifest = Manifest::parse(&mut file)?;
+            *self.manifests[id].borrow_mut() = Some(manifest);
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
         Ok(self.manifests[id].borrow())
     }
-- 
2.43.0


From 32efc567e0e9f8c5eff5371ca12cf692e8321d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 09/18] fix: pair each backup chain with its own signatures
 when some files are missing

---
 src/lib.rs | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7fce480..a2c7a13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,7 +66,7 @@ use std::path::Path;
 use time::Timespec;
 
 pub use backend::Backend;
-use collections::{BackupChain, BackupSet, Collections};
+use collections::{BackupChain, BackupSet, Collections, SignatureChain};
 use manifest::Manifest;
 use signatures::Chain;
 
@@ -124,7 +124,7 @@ struct CollectionsIter<'a> {
 /// components.
 trait ResourceCache {
     fn _collections(&self) -> &Collections;
-    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>>;
+    fn _signature_chain(&self, chain_id: usize, sig_id: usize) -> io::Result<Ref<Option<Chain>>>;
     fn _manifest(
         &self,
         chain_id: usize,
@@ -287,7 +287,7 @@ impl<'a> Snapshot<'a> {
     /// backup chain must be loaded, and this could take some time, depending on the file access
     /// provided by the backend and the signatures size.
     pub fn entries(&self) -> io::Result<SnapshotEntries> {
-        let sig = self.backup._signature_chain(self.chain_id)?;
+        let sig = self.backup._signature_chain(self.chain_id, self.sig_id)?;
         if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
             Ok(SnapshotEntries {
                 chain: sig,
@@ -343,19 +343,33 @@ impl<B: Backend> ResourceCache for Backup<B> {
         &self.collections
     }
 
-    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        // do not borrow mutably when there is a cached value, because it could be in use
-        if self.signatures[chain_id].borrow().is_none() {
-            // compute signatures now
-            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                *self.signatures[chain_id].borrow_mut() = Some(new_sig);
-            } else {
+    fn _signature_chain(&self, chain_id: usize, sig_id: usize) -> io::Result<Ref<Option<Chain>>> {
+        // the signature chains do not correspond one to one to the backup chains if some files are
+        // missing, so look for the one with the signatures of the given backup chain
+        let found = self
+            .collections
+            .backup_chains()
+            .nth(chain_id)
+            .and_then(|chain| {
+                self.collections
+                    .signature_chains()
+                    .enumerate()
+                    .find(|&(_, sigchain)| has_signatures(sigchain, chain, sig_id))
+            });
+        let (chain_id, sigchain) = match found {
+            Some(found) => found,
+            None => {
                 return Err(not_found(
                     "The given backup snapshot does not have a \
                      corresponding signature",
                 ));
             }
+        };
+        // do not borrow mutably when there is a cached value, because it could be in use
+        if self.signatures[chain_id].borrow().is_none() {
+            // compute signatures now
+            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+            *self.signatures[chain_id].borrow_mut() = Some(new_sig);
         }
 
         // return the cached value
@@ -380,6 +394,17 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 }
 
+/// Returns whether the signature chain has the signatures of all the sets of the backup chain, up to the
+/// one in the given position.
+fn has_signatures(sigchain: &SignatureChain, chain: &BackupChain, pos: usize) -> bool {
+    let mut sig_times = sigchain.inc_signatures().map(|sig| sig.time);
+    sigchain.start_time() == chain.start_time()
+        && chain
+            .inc_sets()
+            .take(pos)
+            .all(|set| sig_times.next() == Some(set.end_time()))
+}
+
 fn not_found(msg: &str) -> io::Error {
     io::Error::new(io::ErrorKind::NotFound, msg)
 }
-- 
2.43.0


From 740240ac9fda12c4a13a68e73408a2881103c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 10/18] fix: report unreadable or truncated signature archives
 instead of shortening the listing

---
 src/signatures.rs | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 0853091..1c2d708 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -197,11 +197,10 @@ impl Chain {
         {
             let mut old_snapshots = self.files.iter_mut().peekable();
             for tarfile in tar.entries()? {
-                // we can ignore paths with errors
-                // the only problem here is that we miss some change in the chain, but it is
-                // better than abort the whole signature
-                let mut tarfile = unwrap_or_continue!(tarfile);
-                let size_hint = compute_size_hint(&mut tarfile);
+                // errors cannot be ignored here: the archive ends at the first of them, so we would
+                // miss all the remaining changes
+                let mut tarfile = tarfile?;
+                let size_hint = compute_size_hint(&mut tarfile)?;
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
@@ -591,37 +590,44 @@ fn parse_snapshot_path(path: &[u8]) -> Option<(DiffType, &[u8])> {
     Some((difftype, real))
 }
 
-fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
-    let difftype = {
-        let path = &file.path_bytes();
-        let (difftype, _) = parse_snapshot_path(&path)?;
-        difftype
+fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> io::Result<Option<(usize, usize)>> {
+    let difftype = match parse_snapshot_path(&file.path_bytes()) {
+        Some((difftype, _)) => difftype,
+        None => return Ok(None),
     };
     match difftype {
         DiffType::Signature => compute_size_hint_signature(file),
-        DiffType::Snapshot => compute_size_hint_snapshot(file),
-        _ => None,
+        DiffType::Snapshot => Ok(compute_size_hint_snapshot(file)),
+        _ => Ok(None),
     }
 }
 
 /// Gives a hint on the file size, computing it from the signature file.
 ///
-/// This function returns the lower and upper bound of the file size in bytes. On error returns
-/// `None`.
-fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usize, usize)> {
+/// This function returns the lower and upper bound of the file size in bytes. If the signature is
+/// not valid, returns `None`; fails only if the file cannot be read.
+fn compute_size_hint_signature<R: Read>(
+    file: &mut tar::Entry<R>,
+) -> io::Result<Option<(usize, usize)>> {
+    let mut header = Vec::with_capacity(12);
+    file.by_ref().take(12).read_to_end(&mut header)?;
+    Ok(parse_size_hint_signature(&header, file.size()))
+}
+
+fn parse_size_hint_signature(mut header: &[u8], size: u64) -> Option<(usize, usize)> {
     use byteorder::{BigEndian, ReadBytesExt};
 
     // for signature file format see Docs.md
-    let magic = file.read_u32::<BigEndian>().ok()?;
+    let magic = header.read_u32::<BigEndian>().ok()?;
     if magic != 0x72730136 {
         None
     } else {
         // read the header
-        let file_block_len_bytes = file.read_u32::<BigEndian>().ok()? as usize;
-        let ss_len = file.read_u32::<BigEndian>().ok()? as usize;
+        let file_block_len_bytes = header.read_u32::<BigEndian>().ok()? as usize;
+        let ss_len = header.read_u32::<BigEndian>().ok()? as usize;
         let sign_block_len_bytes = ss_len.checked_add(4)?;
         // the remaining part of the file, after the 12 bytes header, are blocks
-        let blocks_len_bytes = (file.size() as usize).checked_sub(12)?;
+        let blocks_len_bytes = (size as usize).checked_sub(12)?;
         let num_blocks = blocks_len_bytes / sign_block_len_bytes;
         if file_block_len_bytes == 0 || blocks_len_bytes % sign_block_len_bytes != 0 {
             // not a valid signature
-- 
2.43.0


From cff1bd43bb14c54945a655b5028665e21e40f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 11/18] fix: do not take a blank line in a manifest as its end

---
 src/manifest.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..510b207 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -307,17 +307,25 @@ impl<R: BufRead> ManifestParser<R> {
     }
 
     fn read_line(&mut self) -> io::Result<bool> {
-        self.buf.clear();
-        let mut len = self.input.read_until(b'\n', &mut self.buf)?;
-        if len > 0 && self.buf[len - 1] == b'\n' {
-            len -= 1;
-        }
-        if len > 0 && self.buf[len - 1] == b'\r' {
-            len -= 1;
+        loop {
+            self.buf.clear();
+            let mut len = self.input.read_until(b'\n', &mut self.buf)?;
+            if len == 0 {
+                // EOF
+                return Ok(false);
+            }
+            if len > 0 && self.buf[len - 1] == b'\n' {
+                len -= 1;
+            }
+            if len > 0 && self.buf[len - 1] == b'\r' {
+                len -= 1;
+            }
+            self.buf.truncate(len);
+            // skip blank lines: they must not hide the lines after them
+            if !self.buf.is_empty() {
+                return Ok(true);
+            }
         }
-        self.buf.truncate(len);
-
-        Ok(!self.buf.is_empty())
     }
 
     fn read_param_bytes(&mut self, key: &str) -> Result<Vec<u8>, ParseError> {
-- 
2.43.0


From b0ce2dc5d1446fd382cb509826bc26236fe55b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 12/18] fix: find the volumes of a path by comparing paths
 component by component, and of split files

---
 src/manifest.rs | 55 ++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 510b207..26317e9 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -103,20 +103,15 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        // skip the volumes that end before the path; a file could be split among many volumes, so
+        // more than one could contain it
+        let idx = self.volumes.partition_point(|v| {
+            cmp_paths(v.end_path_bytes(), path) == Ordering::Less
+        });
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
-                Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
-                    Ordering::Less | Ordering::Equal => Ordering::Equal,
-                    Ordering::Greater => Ordering::Less,
-                },
-                Ordering::Equal => match v.start_path.block {
-                    Some(n) if n > 0 => Ordering::Greater,
-                    _ => Ordering::Equal,
-                },
-            })
-            .map(|idx| idx + 1)
-            .ok()
+            .get(idx)
+            .filter(|v| cmp_paths(v.start_path_bytes(), path) != Ordering::Greater)
+            .map(|_| idx + 1)
     }
 
     /// Returns the index of the last volume containing the given path, if present.
@@ -126,23 +121,13 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
-        self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
-                Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
-                    Ordering::Greater | Ordering::Equal => Ordering::Equal,
-                    Ordering::Less => Ordering::Greater,
-                },
-                Ordering::Equal => {
-                    if v.end_path.block.is_some() {
-                        Ordering::Less
-                    } else {
-                        Ordering::Equal
-                    }
-                }
-            })
-            .map(|idx| idx + 1)
-            .ok()
+        // skip the volumes that start before the path, or with it
+        let num = self.volumes.partition_point(|v| {
+            cmp_paths(v.start_path_bytes(), path) != Ordering::Greater
+        });
+        self.volume(num)
+            .filter(|v| cmp_paths(v.end_path_bytes(), path) != Ordering::Less)
+            .map(|_| num)
     }
 }
 
@@ -433,6 +418,16 @@ impl<'a> Iterator for WordIter<'a> {
     }
 }
 
+/// Compares two paths in the order used by duplicity: component by component, starting from the root.
+fn cmp_paths(a: &[u8], b: &[u8]) -> Ordering {
+    // the root is represented as '.' in manifests
+    fn components<'a>(path: &'a [u8]) -> impl Iterator<Item = &'a [u8]> {
+        path.split(|b| *b == b'/')
+            .filter(|c| !c.is_empty() && *c != b".")
+    }
+    components(a).cmp(components(b))
+}
+
 fn unescape(mut buf: &[u8]) -> Vec<u8> {
     let mut result = Vec::with_capacity(buf.len());
     buf = match (buf.first().cloned(), buf.last().cloned()) {
-- 
2.43.0


From 37823adc075a827c1c3c527b00d7729eaa6db697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 13/18] fix: compare with the current year of the displayed
 time zone, and do not panic on far away times

---
 src/timefmt.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 8f3def8..8742b66 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -37,7 +37,16 @@ pub trait TimeDisplay {
 /// Suppose to have the timestamp `2012-02-22T14:53:18Z`. If we are in 2012, the display will be
 /// `Feb 22 14:53`; if we are in 2015, the display will be `Feb 22  2012`.
 #[derive(Copy, Clone, Debug)]
-pub struct PrettyDisplay(Tm);
+pub struct PrettyDisplay {
+    // none if the calendar cannot represent the time
+    time: Option<Tm>,
+    // converts the current time to the displayed time zone
+    to_zone: fn(Timespec) -> Tm,
+}
+
+/// Times farther than this from the epoch (in seconds, about a billion years) do not have a
+/// calendar representation.
+const MAX_SECONDS: i64 = 1 << 55;
 
 /// Parse a string representing a duplicity timestamp and returns a `Timespec` if all goes well.
 ///
@@ -68,23 +77,44 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay::new(self, time::at)
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay::new(self, time::at_utc)
+    }
+}
+
+impl PrettyDisplay {
+    fn new(time: Timespec, to_zone: fn(Timespec) -> Tm) -> Self {
+        let representable = -MAX_SECONDS < time.sec && time.sec < MAX_SECONDS;
+        PrettyDisplay {
+            time: if representable {
+                Some(to_zone(time))
+            } else {
+                None
+            },
+            to_zone: to_zone,
+        }
     }
 }
 
 impl Display for PrettyDisplay {
     fn fmt(&self, f: &mut Formatter) -> Result {
-        if time::now_utc().tm_year == self.0.tm_year {
+        let tm = match self.time {
+            Some(ref tm) => tm,
+            None => {
+                return write!(f, "?");
+            }
+        };
+        // note: the current year depends on the time zone
+        if (self.to_zone)(time::get_time()).tm_year == tm.tm_year {
             // the year is the current, so print month, day, hour
-            write!(f, "{}", time::strftime("%b %d %R", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d %R", tm).unwrap())
         } else {
             // the year is not the current, so print month, day, year
             // NOTE: the double space before year is meaningful
-            write!(f, "{}", time::strftime("%b %d  %Y", &self.0).unwrap())
+            write!(f, "{}", time::strftime("%b %d  %Y", tm).unwrap())
         }
     }
 }
-- 
2.43.0


From 1b203b7c5866ad67697807a4f3716b21a85e5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 14/18] fix: report directory read failures instead of
 shortening the listing

---
 src/backend/local.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/backend/local.rs b/src/backend/local.rs
index c4d1c1d..2407305 100644
--- a/src/backend/local.rs
+++ b/src/backend/local.rs
@@ -28,6 +28,7 @@ use std::ffi::OsString;
 use std::fs::{self, File};
 use std::io;
 use std::path::{Path, PathBuf};
+use std::vec;
 
 /// Backend for some directory in the local file system.
 #[derive(Debug)]
@@ -36,7 +37,7 @@ pub struct LocalBackend {
 }
 
 /// Iterator over a set of file names.
-pub struct FileNameIterator(fs::ReadDir);
+pub struct FileNameIterator(vec::IntoIter<OsString>);
 
 impl LocalBackend {
     /// Creates a new local backend for the given directory.
@@ -53,8 +54,11 @@ impl Backend for LocalBackend {
     type FileStream = File;
 
     fn file_names(&self) -> io::Result<Self::FileNameIter> {
-        let dir = fs::read_dir(self.base_path.as_path())?;
-        Ok(FileNameIterator(dir))
+        // read all the names here, because errors cannot be reported later by the iterator
+        let names = fs::read_dir(self.base_path.as_path())?
+            .map(|entry| entry.map(|e| e.file_name()))
+            .collect::<io::Result<Vec<_>>>()?;
+        Ok(FileNameIterator(names.into_iter()))
     }
 
     fn open_file(&self, name: &Path) -> io::Result<File> {
@@ -68,12 +72,7 @@ impl Iterator for FileNameIterator {
     type Item = OsString;
 
     fn next(&mut self) -> Option<OsString> {
-        for entry in &mut self.0 {
-            if let Ok(entry) = entry {
-                return Some(entry.file_name());
-            }
-        }
-        None
+        self.0.next()
     }
 }
 
-- 
2.43.0


From 7a717b65bbb4048296df87c15531e4005310d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 15/18] fix: read owner names and times from pax records when
 the tar header cannot hold them

---
 src/signatures.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 1c2d708..2170359 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -9,6 +9,7 @@ use std::io::{self, Read};
 use std::iter::Iterator;
 use std::path::Path;
 use std::slice;
+use std::str;
 
 use flate2::read::GzDecoder;
 use tar;
@@ -129,6 +130,14 @@ struct UserGroupMap {
     gid_map: HashMap<(usize, u64), String>,
 }
 
+/// What a pax archive records about an entry besides its header, when it does not fit there.
+#[derive(Debug, Default)]
+struct PaxInfo {
+    mtime: Option<i64>,
+    uname: Option<Vec<u8>>,
+    gname: Option<Vec<u8>>,
+}
+
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
@@ -201,16 +210,28 @@ impl Chain {
                 // miss all the remaining changes
                 let mut tarfile = tarfile?;
                 let size_hint = compute_size_hint(&mut tarfile)?;
+                let pax = PaxInfo::read(&mut tarfile)?;
                 let path = &tarfile.path_bytes();
                 let (difftype, path) = unwrap_opt_or_continue!(parse_snapshot_path(&path));
                 let info = match difftype {
                     DiffType::Signature | DiffType::Snapshot => {
                         let header = tarfile.header();
-                        let time = Timespec::new(header.mtime().unwrap_or(0) as i64, 0);
-                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), header.username()) {
+                        let time = pax
+                            .mtime
+                            .unwrap_or_else(|| header.mtime().unwrap_or(0) as i64);
+                        let time = Timespec::new(time, 0);
+                        let username = match pax.uname {
+                            Some(ref name) => str::from_utf8(name).map(Some),
+                            None => header.username(),
+                        };
+                        let groupname = match pax.gname {
+                            Some(ref name) => str::from_utf8(name).map(Some),
+                            None => header.groupname(),
+                        };
+                        if let (Ok(uid), Ok(Some(name))) = (header.uid(), username) {
                             self.ug_map.add_user(snapshot_id, uid, name.to_owned());
                         }
-                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), header.groupname()) {
+                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), groupname) {
                             self.ug_map.add_group(snapshot_id, gid, name.to_owned());
                         }
                         let link = tarfile
@@ -590,6 +611,28 @@ fn parse_snapshot_path(path: &[u8]) -> Option<(DiffType, &[u8])> {
     Some((difftype, real))
 }
 
+impl PaxInfo {
+    fn read<R: Read>(file: &mut tar::Entry<R>) -> io::Result<Self> {
+        let mut info = PaxInfo::default();
+        if let Some(extensions) = file.pax_extensions()? {
+            for ext in extensions.filter_map(Result::ok) {
+                match ext.key_bytes() {
+                    b"mtime" => info.mtime = ext.value().ok().and_then(parse_pax_time),
+                    b"uname" => info.uname = Some(ext.value_bytes().to_owned()),
+                    b"gname" => info.gname = Some(ext.value_bytes().to_owned()),
+                    _ => {}
+                }
+            }
+        }
+        Ok(info)
+    }
+}
+
+/// Parses a decimal number of seconds, ignoring the fraction.
+fn parse_pax_time(value: &str) -> Option<i64> {
+    value.split('.').next().and_then(|secs| secs.parse().ok())
+}
+
 fn compute_size_hint<R: Read>(file: &mut tar::Entry<R>) -> io::Result<Option<(usize, usize)>> {
     let difftype = match parse_snapshot_path(&file.path_bytes()) {
         Some((difftype, _)) => difftype,
-- 
2.43.0


From 44de9e829d3208a57b0605c0a49515225a89549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/18] fix: report signature archives that end without their
 end marker

A plain signature file cut at a record boundary, or empty, was read as a whole one with
fewer entries.
---
 src/signatures.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 2170359..7b55722 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -138,6 +138,13 @@ struct PaxInfo {
     gname: Option<Vec<u8>>,
 }
 
+/// A reader that remembers if someone tried to read past the end.
+#[derive(Debug)]
+struct EndReader<R> {
+    inner: R,
+    end_reached: bool,
+}
+
 #[derive(Debug)]
 struct ModeDisplay(Option<u32>);
 
@@ -183,9 +190,9 @@ impl Chain {
             let snapshot_id = self.num_snapshots;
             if sigfile.compressed {
                 let gz_decoder = GzDecoder::new(file);
-                self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)
+                self.add_sigtar(gz_decoder, snapshot_id)
             } else {
-                self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)
+                self.add_sigtar(file, snapshot_id)
             }
         };
         if result.is_ok() {
@@ -197,6 +204,22 @@ impl Chain {
         result
     }
 
+    fn add_sigtar<R: Read>(&mut self, file: R, snapshot_id: usize) -> io::Result<()> {
+        let mut file = EndReader {
+            inner: file,
+            end_reached: false,
+        };
+        self.add_sigtar_to_snapshots(tar::Archive::new(&mut file), snapshot_id)?;
+        if file.end_reached {
+            // the archive is not terminated by its end marker: some of the entries could be missing
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "the signature archive is truncated",
+            ));
+        }
+        Ok(())
+    }
+
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
@@ -306,6 +329,16 @@ impl Chain {
     }
 }
 
+impl<R: Read> Read for EndReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let len = self.inner.read(buf)?;
+        if len == 0 && !buf.is_empty() {
+            self.end_reached = true;
+        }
+        Ok(len)
+    }
+}
+
 // some optimizations are implemented for snapshots iteration, like `nth` and `ExactSizeIterator`.
 impl<'a> Iterator for Snapshots<'a> {
     type Item = Snapshot<'a>;
-- 
2.43.0


From 95dfca3ee5fd4388ae502b8a3d7ef5eee7dc1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 17/18] fix: verify the checksum of compressed signature files

The archive ends before the gzip stream does, so its checksum was never reached, and
damaged contents were listed as good ones.
---
 src/signatures.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 7b55722..ac0487d 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -189,8 +189,11 @@ impl Chain {
         let result = {
             let snapshot_id = self.num_snapshots;
             if sigfile.compressed {
-                let gz_decoder = GzDecoder::new(file);
-                self.add_sigtar(gz_decoder, snapshot_id)
+                let mut gz_decoder = GzDecoder::new(file);
+                self.add_sigtar(&mut gz_decoder, snapshot_id)
+                    // the checksum is verified only when the end of the stream is reached
+                    .and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()))
+                    .map(|_| ())
             } else {
                 self.add_sigtar(file, snapshot_id)
             }
-- 
2.43.0


From 33cc4f9f4886a58e931a1c9c82a549e8efa4aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 18/18] fix: do not open a file for a manifest that is not
 there

A snapshot without a manifest asked the backend to open the empty name
(with the local backend, the backup directory itself).
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a2c7a13..4a4331a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -383,6 +383,12 @@ impl<B: Backend> ResourceCache for Backup<B> {
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
         // do not borrow mutably when there is a cached value, because it could be in use
         if self.manifests[id].borrow().is_none() {
+            if path.is_empty() {
+                // do not ask the backend for a file that does not exist
+                return Err(From::from(not_found(
+                    "The given backup snapshot does not have a manifest",
+                )));
+            }
             // compute manifest now
             let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
             let manifest = Manifest::parse(&mut file)?;
-- 
2.43.0

