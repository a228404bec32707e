SIG="src/signatures.rs"; COLL="src/collections/mod.rs"; FNM="src/collections/file_naming.rs"; LIB="src/lib.rs"; MAN="src/manifest.rs"; TF="src/timefmt.rs"; LOC="src/backend/local.rs"
SEEDS={}
def seed(i, property, edits, needs, breaks, demo):
    SEEDS[i]=dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)

seed("C01-upper-suffix","C01",[(FNM,"compressed: is_compressed(lower_fname.as_ref()),","compressed: is_compressed(filename),")],
 "a compressed file whose suffix is written in capitals","DUPLICITY-FULL...VOL1.DIFFTAR.GZ is reported as not compressed",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["DUPLICITY-FULL.20200101T000000Z.VOL1.DIFFTAR.GZ"]);
    assert!(c.backup_chains().next().unwrap().full_set().is_compressed());
}
''')
seed("C01-inc-part","C01",[(FNM,r'''\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)''',r'''\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?$''')],
 "an encrypted manifest of an incremental backup","the encrypted manifest of an incremental backup is not recognised",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol1.difftar.gpg", "duplicity-inc.20200101T000000Z.to.20200102T000000Z.vol1.difftar.gpg",
        "duplicity-inc.20200101T000000Z.to.20200102T000000Z.manifest.gpg"]);
    let ch = c.backup_chains().next().unwrap();
    assert_eq!(ch.inc_sets().next().unwrap().manifest_path(), "duplicity-inc.20200101T000000Z.to.20200102T000000Z.manifest.gpg");
}
''')
seed("C02-same-end","C02",[(COLL,'''                | fnm::Type::NewSig {
                    start_time,
                    end_time,
                    ..
                } => my_start == start_time && my_end == end_time,
                _ => false,''','''                => my_start == start_time && my_end == end_time,
                // the span of a signature ends with the backup
                fnm::Type::NewSig { end_time, .. } => my_end == end_time,
                _ => false,''')],
 "two incremental backups that end at the same instant but start at different ones, one of which has a marked signature file",
 "the marks of a signature of one incremental are shown for another one that ends at the same time",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol1.difftar", "duplicity-full.20200102T000000Z.vol1.difftar",
        "duplicity-inc.20200101T000000Z.to.20200103T000000Z.vol1.difftar",
        "duplicity-inc.20200102T000000Z.to.20200103T000000Z.vol1.difftar", "duplicity-new-signatures.20200102T000000Z.to.20200103T000000Z.sigtar.gpg"]);
    for ch in c.backup_chains() {
        for s in ch.inc_sets() {
            let expected = s.start_time() == ruplicity::timefmt::parse_time_str("20200102t000000z").unwrap();
            assert_eq!(s.is_encrypted(), expected, "{:?}", s);
        }
    }
}
''')
seed("C03-last-chain","C03",[(COLL,"for chain in &mut backup_chains {","for chain in backup_chains.iter_mut().rev().take(2) {")],
 "three full backups taken before an incremental of the first of them",
 "an incremental backup that continues an older chain is left out",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol1.difftar", "duplicity-full.20200102T000000Z.vol1.difftar", "duplicity-full.20200103T000000Z.vol1.difftar",
        "duplicity-inc.20200101T000000Z.to.20200104T000000Z.vol1.difftar"]);
    assert_eq!(c.num_snapshots(), 4);
}
''')
seed("C05-sort-skip","C05",[(SIG,'''            self.files.extend(new_files.into_iter());
            self.files.sort_by(|a, b| a.path.cmp(&b.path));''','''            // new files are often all after the old ones, in that case the list is already sorted
            let sorted = match (self.files.last(), new_files.last()) {
                (Some(old), Some(new)) => old.path < new.path,
                _ => false,
            };
            self.files.extend(new_files.into_iter());
            if !sorted {
                self.files.sort_by(|a, b| a.path.cmp(&b.path));
            }''')],
 "an incremental that adds two names, one before and one after the last known name","entries are listed out of order, and later changes to them create duplicates",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1), rec("snapshot/m", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2), rec("snapshot/z", 2)]);
    backup(&m, Some(1), 2, &[rec("snapshot/b", 3), rec("snapshot/z", 3)]);
    let b = ruplicity::Backup::new(m).unwrap();
    assert_eq!(listing(&b, 1).unwrap(), want(&[("a", 1), ("b", 2), ("m", 1), ("z", 2)]));
    assert_eq!(listing(&b, 2).unwrap(), want(&[("a", 1), ("b", 3), ("m", 1), ("z", 3)]));
}
''')
seed("C06-mtime32","C06",[(SIG,"                            mtime: time,","                            mtime: Timespec::new(i64::from(time.sec as i32), 0),")],
 "a file modified after January 2038","modification times after 2038 wrap around",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 4_000_000_000)]);
    let b = ruplicity::Backup::new(m).unwrap();
    assert_eq!(listing(&b, 0).unwrap(), want(&[("a", 4_000_000_000)]));
}
''')
seed("C06-long-link","C06",[(SIG,'''                        let link = tarfile
                            .link_name_bytes()''','''                        let link = header
                            .link_name_bytes()''')],
 "a symbolic link whose target is longer than 100 bytes","long link targets are cut",
'''
fn main() {
    let m = Mem::default();
    let long = format!("{}/end", "d/".repeat(80));
    let mut r = rec("snapshot/l", 1);
    r.kind = b'2';
    r.link = Some(long.clone());
    backup(&m, None, 0, &[r]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let link = e.as_signature().next().unwrap().linked_path().unwrap().to_str().unwrap().to_string();
    assert_eq!(link.replace("//", "/"), long.replace("//", "/"));
}
''')
seed("C06-id-fallback","C06",[(SIG,"                            uid: header.uid().ok(),","                            uid: header.uid().ok().filter(|u| *u != 0xfffe),")],
 "a file owned by user id 65534","the owner nobody is reported as absent",
'''
fn main() {
    let m = Mem::default();
    let mut r = rec("snapshot/a", 1);
    r.uid = 65534;
    backup(&m, None, 0, &[r]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    assert_eq!(e.as_signature().next().unwrap().userid(), Some(65534));
}
''')
seed("C07-foreign-magic","C07",[(SIG,"if magic != 0x72730136 {","if magic & 0xffff_ff00 != 0x7273_0100 {")],
 "a signature made with an unknown signature format","a size is reported from a signature of an unknown format",
'''
fn main() {
    let m = Mem::default();
    let mut r = rec("signature/a", 1);
    r.data = rdiff(1000, 512);
    r.data[3] = 0x11;
    backup(&m, None, 0, &[r]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    assert_eq!(e.as_signature().next().unwrap().size_hint(), None);
}
''')
seed("C10-skip-open-error","C10",[(SIG,"            let file = backend.open_file(inc.file_name.as_ref())?;\n",'''            let file = match backend.open_file(inc.file_name.as_ref()) {
                Ok(file) => file,
                // the snapshots read so far are still good
                Err(_) => break,
            };
''')],
 "a transient failure while an incremental signature is opened, and then a retry","after one failed open, the chain stays shortened and retries keep failing",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2)]);
    *m.fail_open.borrow_mut() = Some(format!("duplicity-new-signatures.{}.to.{}.sigtar", T[0], T[1]));
    let b = ruplicity::Backup::new(m.clone()).unwrap();
    assert!(listing(&b, 1).is_err());
    *m.fail_open.borrow_mut() = None;
    assert_eq!(listing(&b, 1).unwrap(), want(&[("a", 1), ("b", 2)]));
}
''')
seed("C10-manifest-read","C10",[(MAN,'''        if !self.read_line()? {
            // EOF''','''        if !self.read_line().unwrap_or(false) {
            // EOF''')],
 "a read failure exactly between two volumes of a manifest","a manifest whose reading fails is returned with fewer volumes",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[]);
    let name = format!("duplicity-full.{}.manifest", T[0]);
    let text = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   .\\n    EndingPath     k\\n    Hash SHA1 00\\n";
    let more = "Volume 2:\\n    StartingPath   l\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    for f in m.files.borrow_mut().iter_mut() {
        if f.0 == name {
            f.1 = format!("{}{}", text, more).into_bytes();
        }
    }
    *m.fail_read_at.borrow_mut() = Some((name, text.len()));
    let b = ruplicity::Backup::new(m.clone()).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(s.manifest().is_err());
    *m.fail_read_at.borrow_mut() = None;
    assert_eq!(s.manifest().unwrap().last_volume_index(), 2);
}
''')
seed("C13-gap","C13",[(MAN,"if i != volumes.len() + 1 {","if i <= volumes.len() {")],
 "a manifest in which a volume is missing","a manifest with a missing volume is accepted, and its volumes are renumbered",
'''
fn main() {
    let v = |n: usize| format!("Volume {}:\\n    StartingPath   .\\n    EndingPath     z\\n    Hash SHA1 00\\n", n);
    let t = format!("Hostname h\\nLocaldir /d\\n{}{}", v(1), v(3));
    assert!(ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).is_err());
}
''')
seed("C13-bad-block","C13",[(MAN,"                Some(usize::from_str(s)?)","                usize::from_str(s).ok()")],
 "a path line with a block number that is not a number","a damaged block number is ignored",
'''
fn main() {
    let t = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   a 1x\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    assert!(ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).is_err());
}
''')
seed("C16-iso-year","C16",[(TF,'        } else {\n            // the year is not the current, so print month, day, year','        } else if tm.tm_yday >= 3 && tm.tm_yday <= 361 {\n            // the year is not the current, so print month, day, year'),(TF,'            write!(f, "{}", time::strftime("%b %d  %Y", tm).unwrap())\n        }','            write!(f, "{}", time::strftime("%b %d  %Y", tm).unwrap())\n        } else {\n            // around new year\n            write!(f, "{}", time::strftime("%b %d  %G", tm).unwrap())\n        }')],
 "a time in the first or last days of a year","the year shown is the one of the ISO week, one off around new year",
'''
fn main() {
    use ruplicity::timefmt::TimeDisplay;
    let t = ruplicity::timefmt::parse_time_str("20050101t120000z").unwrap();
    assert_eq!(t.into_utc_display().to_string(), "Jan 01  2005");
}
''')
seed("C17-total","C17",[(COLL,'''                .iter()
                .map(|i| i.volumes_paths.len())
                .fold''','''                .iter()
                .take_while(|i| i.is_complete())
                .map(|i| i.volumes_paths.len())
                .fold''')],
 "a chain with an incremental that has no manifest","the total number of volumes shown for a chain does not add up",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol1.difftar", "duplicity-inc.20200101T000000Z.to.20200103T000000Z.vol1.difftar"]);
    let s = c.backup_chains().next().unwrap().to_string();
    assert!(s.contains("contained volumes: 2\\n"), "{}", s);
}
''')
seed("C18-lossy","C18",[(LOC,"        path.push(name);","        path.push(name.to_string_lossy().as_ref());")],
 "a file whose name is not UTF-8","a listed file cannot be opened, or another one is opened in its place",
'''
fn main() {
    use ruplicity::Backend;
    use std::os::unix::ffi::OsStrExt;
    use std::io::Read;
    let d = std::env::current_dir().unwrap().join("dir");
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join(std::ffi::OsStr::from_bytes(b"a\\xff")), b"one").unwrap();
    let b = ruplicity::backend::local::LocalBackend::new(&d);
    let n = b.file_names().unwrap().next().unwrap();
    let mut v = vec![];
    b.open_file(n.as_ref()).unwrap().read_to_end(&mut v).unwrap();
    assert_eq!(v, b"one");
}
''')
seed("C19-old-records","C19",[(SIG,'''                .rev()
                .find(|s| s.index <= index)''','''                .rev()
                .take(128)
                .find(|s| s.index <= index)''')],
 "a file recorded by more than 128 snapshots of a chain, and one of its first snapshots being listed","a file disappears from the first snapshots of a long chain",
'''
fn main() {
    let m = Mem::default();
    let t = |n: usize| format!("20200101T{:02}{:02}00Z", n / 60, n % 60);
    for i in 0..140 {
        let s = if i == 0 { format!("duplicity-full-signatures.{}.sigtar", t(0)) } else { format!("duplicity-new-signatures.{}.to.{}.sigtar", t(i - 1), t(i)) };
        let v = if i == 0 { format!("duplicity-full.{}.vol1.difftar", t(0)) } else { format!("duplicity-inc.{}.to.{}.vol1.difftar", t(i - 1), t(i)) };
        m.add(&v, vec![]);
        m.add(&s, tar(&[rec("snapshot/a", i as u64)]));
    }
    let b = ruplicity::Backup::new(m).unwrap();
    for i in 0..140 {
        assert_eq!(listing(&b, i).unwrap(), want(&[("a", i as i64)]));
    }
}
''')
seed("C20-lone-quote","C20",[(MAN,'''(Some(b'"'), _) if buf.len() > 1 =>''','''(Some(b'"'), _) =>''')],
 "a manifest in which a path is a single quotation mark","parsing panics",
'''
fn main() {
    let t = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   \\"\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    let _ = ruplicity::manifest::Manifest::parse(&mut t.as_bytes());
}
''')
seed("C05-reborn","C05",[(SIG,"                    path_snapshots.snapshots.push(new_snapshot);",
'''                    // a path that is already known to be deleted does not need to be recorded again
                    let gone = path_snapshots.snapshots.iter().any(|s| s.info.is_none());
                    if new_snapshot.info.is_some() || !gone {
                        path_snapshots.snapshots.push(new_snapshot);
                    }''')],
 "a path deleted, created again and deleted again within one chain",
 "a path that was deleted twice is still listed",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1), rec("snapshot/b", 1)]);
    backup(&m, Some(0), 1, &[rec("deleted/b", 2)]);
    backup(&m, Some(1), 2, &[rec("snapshot/b", 3)]);
    backup(&m, Some(2), 3, &[rec("deleted/b", 4)]);
    let b = ruplicity::Backup::new(m).unwrap();
    assert_eq!(listing(&b, 2).unwrap(), want(&[("a", 1), ("b", 3)]));
    assert_eq!(listing(&b, 3).unwrap(), want(&[("a", 1)]));
}
''')
seed("C05-byte-order","C05",[(SIG,"self.files.sort_by(|a, b| a.path.cmp(&b.path));","self.files.sort_by(|a, b| a.path.as_bytes().cmp(b.path.as_bytes()));")],
 "a directory whose name is a prefix of a sibling's name, followed by a byte below the slash, and a later change of what is inside it",
 "entries are kept in byte order while records come in path order, so that changes create duplicates",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1), rec("snapshot/a/b", 1), rec("snapshot/a.b", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/a/b", 2), rec("snapshot/a.b", 2)]);
    let b = ruplicity::Backup::new(m).unwrap();
    assert_eq!(listing(&b, 0).unwrap(), want(&[("a", 1), ("a/b", 1), ("a.b", 1)]));
    assert_eq!(listing(&b, 1).unwrap(), want(&[("a", 1), ("a/b", 2), ("a.b", 2)]));
}
''')
seed("C03-two-chains","C03",[(COLL,'''            if chain.end_time() == inc.start_time() && chain.add_new_sig(inc) {
                added = true;
                break;
            }''','''            if chain.end_time() == inc.start_time() && chain.add_new_sig(inc) {
                added = true;
            }''')],
 "two signature chains that end at the same instant, and an incremental signature that starts there",
 "an incremental signature joins two chains",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full-signatures.20200101T000000Z.sigtar.gz", "duplicity-full-signatures.20200102T000000Z.sigtar.gz",
        "duplicity-new-signatures.20200101T000000Z.to.20200102T000000Z.sigtar.gz", "duplicity-new-signatures.20200102T000000Z.to.20200103T000000Z.sigtar.gz"]);
    let n: usize = c.signature_chains().map(|c| c.inc_signatures().count()).sum();
    assert_eq!(n, 2);
}
''')
seed("C04-not-utf8","C04",[(COLL,".filter_map(|path| path.as_ref().to_str())","// names that are not UTF-8 are not ours\n        .map_while(|path| path.as_ref().to_str())")],
 "a directory that also holds a file whose name is not UTF-8, listed before files of the backup",
 "the files that are listed after a foreign name that is not UTF-8 are ignored",
'''
fn main() {
    use std::os::unix::ffi::OsStrExt;
    use std::ffi::OsStr;
    let a = OsStr::from_bytes(b"duplicity-full.20200101T000000Z.vol1.difftar");
    let x = OsStr::from_bytes(b"\\xff");
    assert_eq!(ruplicity::collections::Collections::from_filenames(&[a, x]).num_snapshots(), 1);
    assert_eq!(ruplicity::collections::Collections::from_filenames(&[x, a]).num_snapshots(), 1);
}
''')
seed("C08-evict","C08",[(LIB,'''        // return the cached value
        Ok(self.signatures[chain_id].borrow())''','''        // chains can be large, so keep only two of them in memory
        let loaded = self.signatures.iter().filter(|s| s.borrow().is_some()).count();
        if loaded > 2 {
            for (i, s) in self.signatures.iter().enumerate() {
                if i != chain_id {
                    *s.borrow_mut() = None;
                }
            }
        }
        // return the cached value
        Ok(self.signatures[chain_id].borrow())''')],
 "entries of one chain being held while those of two other chains are opened","opening entries panics while those of another chain are held, or reads signatures again",
'''
fn main() {
    let m = Mem::default();
    for i in 0..3 {
        backup(&m, None, i, &[rec("snapshot/a", i as u64)]);
    }
    let b = ruplicity::Backup::new(m).unwrap();
    let v: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let held: Vec<_> = v.iter().map(|s| s.entries().unwrap()).collect();
    for (i, e) in held.iter().enumerate() {
        assert_eq!(e.as_signature().next().unwrap().mtime().sec, i as i64);
    }
}
''')
seed("C10-not-found","C10",[(SIG,"            let file = backend.open_file(inc.file_name.as_ref())?;\n",'''            let file = match backend.open_file(inc.file_name.as_ref()) {
                Ok(file) => file,
                // removed since the files were listed: nothing to read
                Err(ref e) if e.kind() == io::ErrorKind::NotFound => continue,
                Err(e) => return Err(e),
            };
''')],
 "a signature file in the middle of a chain that is removed after the backup was opened","a snapshot shows the entries of a later one",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2)]);
    backup(&m, Some(1), 2, &[rec("snapshot/c", 3)]);
    let b = ruplicity::Backup::new(m.clone()).unwrap();
    m.files.borrow_mut().retain(|f| f.0 != format!("duplicity-new-signatures.{}.to.{}.sigtar", T[0], T[1]));
    match listing(&b, 1) {
        Ok(l) => assert_eq!(l, want(&[("a", 1), ("b", 2)])),
        Err(_) => {}
    }
}
''')
seed("C11-big-gz","C11",[(SIG,"        chain.add_sigfile(file, coll.full_signature())?;","        // guard against backends that never end\n        chain.add_sigfile(file.take(4 * 1024 * 1024), coll.full_signature())?;")],
 "a signature archive of more than 4 MiB","large archives can be read only if they are compressed",
'''
fn main() {
    let n = 9000;
    let recs: Vec<Rec> = (0..n).map(|i| rec(&format!("snapshot/{:06}", i), i)).collect();
    let plain = tar(&recs);
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    std::io::Write::write_all(&mut e, &plain).unwrap();
    let gz = e.finish().unwrap();
    for (name, data) in [("sigtar", plain), ("sigtar.gz", gz)] {
        let m = Mem::default();
        m.add("duplicity-full.20200101T000000Z.vol1.difftar", vec![]);
        m.add(&format!("duplicity-full-signatures.20200101T000000Z.{}", name), data);
        let b = ruplicity::Backup::new(m).unwrap();
        assert_eq!(listing(&b, 0).unwrap().len(), n as usize, "{}", name);
    }
}
''')
seed("C12-whitespace","C12",[(MAN,".position(|b| *b == b' ')",".position(|b| b.is_ascii_whitespace())"),(MAN,".position(|b| *b != b' ')",".position(|b| !b.is_ascii_whitespace())")],
 "a path that contains a tab or form feed, written plain","paths are cut at such bytes",
'''
fn main() {
    let t = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   caf\\u{c}e\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    let m = ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).unwrap();
    assert_eq!(m.volume(1).unwrap().start_path_bytes(), "caf\\u{c}e".as_bytes());
}
''')
seed("C17-group","C17",[(SIG,'''self.groupname().unwrap_or("?"),''','''self.groupname().or(self.username()).unwrap_or("?"),''')],
 "an entry whose owner name is known and whose group name is not","the owner is shown as the group",
'''
fn main() {
    let m = Mem::default();
    let mut r = rec("snapshot/a", 1);
    r.gname = String::new();
    backup(&m, None, 0, &[r]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    assert_eq!(t.split_whitespace().nth(2), Some("?"), "{}", t);
}
''')
seed("C18-create","C18",[(LOC,"        File::open(path)","        fs::OpenOptions::new().read(true).append(true).create(true).open(path)")],
 "a name that does not exist being opened","opening a missing file creates it, empty",
'''
fn main() {
    use ruplicity::Backend;
    let d = std::env::current_dir().unwrap().join("dir");
    std::fs::create_dir(&d).unwrap();
    let b = ruplicity::backend::local::LocalBackend::new(&d);
    assert!(b.open_file("gone".as_ref()).is_err());
    assert_eq!(b.file_names().unwrap().count(), 0);
}
''')
seed("C19-mask","C19",[(SIG,"                index: self.snapshot_id - 1,","                index: (self.snapshot_id - 1) & 0x7ff,")],
 "a chain of more than 2048 snapshots","snapshots of very long chains show the contents of the first ones",
'''
fn main() {
    let m = Mem::default();
    let n = 2060;
    let t = |n: usize| format!("202001{:02}T{:02}{:02}00Z", 1 + n / 1440, n / 60 % 24, n % 60);
    for i in 0..n {
        m.add(&if i == 0 { format!("duplicity-full-signatures.{}.sigtar", t(0)) } else { format!("duplicity-new-signatures.{}.to.{}.sigtar", t(i - 1), t(i)) }, tar(&[rec("snapshot/a", i as u64)]));
    }
    let names: Vec<String> = m.files.borrow().iter().map(|f| f.0.clone()).collect();
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let ch = ruplicity::signatures::Chain::from_sigchain(c.signature_chains().next().unwrap(), &m).unwrap();
    for (i, s) in ch.snapshots().enumerate() {
        assert_eq!(s.files().next().unwrap().mtime().sec, i as i64);
    }
}
''')
seed("C20-short-escape","C20",[(MAN,"} else if buf.len() - i >= 4 && buf[i + 1] == b'x' {","} else if buf.len() - i >= 3 && buf[i + 1] == b'x' {")],
 "a manifest in which a path ends within an escape sequence","parsing panics",
'''
fn main() {
    let t = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   \\"ab\\\\x4\\"\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    let _ = ruplicity::manifest::Manifest::parse(&mut t.as_bytes());
}
''')

seed("C07-u32","C07",[(SIG,"    Some((bytes, bytes))","    Some((bytes as u32 as usize, bytes as u32 as usize))")],
 "a new file of 4 GiB or more that is stored as a whole","the size of a file of 4 GiB or more wraps around",
"""
use std::io::{self, Read};
use std::path::Path;
struct Sparse(Vec<u8>, u64);
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.0.is_empty() {
            let n = self.0.len().min(buf.len());
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0.drain(..n);
            return Ok(n);
        }
        let n = (buf.len() as u64).min(self.1) as usize;
        for b in &mut buf[..n] { *b = 0; }
        self.1 -= n as u64;
        Ok(n)
    }
}
struct B;
const LEN: u64 = (1 << 32) + 512;
impl ruplicity::Backend for B {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = Sparse;
    fn file_names(&self) -> io::Result<Self::FileNameIter> { Ok(vec!["duplicity-full-signatures.20200101T000000Z.sigtar".to_string()].into_iter()) }
    fn open_file(&self, _: &Path) -> io::Result<Sparse> {
        let mut h = tar::Header::new_gnu();
        h.set_path("snapshot/a").unwrap();
        h.set_mode(0o644); h.set_uid(0); h.set_gid(0); h.set_mtime(0); h.set_size(LEN); h.set_entry_type(tar::EntryType::Regular); h.set_cksum();
        Ok(Sparse(h.as_bytes().to_vec(), LEN + 1024))
    }
}
fn main() {
    use ruplicity::Backend;
    let c = ruplicity::collections::Collections::from_filenames(B.file_names().unwrap());
    let ch = ruplicity::signatures::Chain::from_sigchain(c.signature_chains().next().unwrap(), &B).unwrap();
    let s = ch.snapshots().next().unwrap().files().next().unwrap().size_hint();
    assert_eq!(s, Some((LEN as usize, LEN as usize)));
}
""")
seed("C21-best-effort","C21",[(SIG,"            chain.add_sigfile(file, &inc)?;","""            match chain.add_sigfile(file, &inc) {
                // still being written: show what there is
                Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => chain.num_snapshots += 1,
                result => result?,
            }""")],
 "an incremental signature file cut short","a snapshot whose signature file is cut short is shown with some of its changes",
"""
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1), rec("snapshot/b", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/a", 2), rec("snapshot/b", 2)]);
    for f in m.files.borrow_mut().iter_mut() {
        if f.0.contains("new-signatures") { f.1.truncate(512); }
    }
    let b = ruplicity::Backup::new(m).unwrap();
    assert!(listing(&b, 1).is_err());
}
""")
seed("C17-flush","C17",[(SIG,"""        for file in self.0.clone() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
        }""","""        for (i, file) in self.0.clone().enumerate() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
            if i % 2048 == 2047 {
                // keep the buffer small
                try_or_fmt_err!(tw.flush());
            }
        }""")],
 "a snapshot of more than 2048 entries, with a wider cell after the first 2048 of them","the columns are not aligned throughout the listing",
"""
fn main() {
    let m = Mem::default();
    let mut r: Vec<Rec> = (0..2100).map(|i| rec(&format!("snapshot/a{:05}", i), 1)).collect();
    r[2099].uname = "a_very_long_user_name".into();
    r[2099].uid = 7;
    backup(&m, None, 0, &r);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = s.entries().unwrap().to_string();
    let at: Vec<usize> = t.lines().map(|l| l.rfind(" a").unwrap()).collect();
    assert_eq!(at.len(), 2100);
    assert!(at.iter().all(|p| *p == at[0]));
}
""")
seed("C03-replaced-end","C03",[(COLL,"""                if replace_last {
                    self.end_time = end_time;
                    self.incsets.pop();""","""                if replace_last {
                    self.incsets.pop();""")],
 "two incrementals that start at the same instant, and a third one that follows the later of them","the chain ends too early: the incrementals after a replaced one are left out",
"""
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol1.difftar", "duplicity-inc.20200101T000000Z.to.20200102T000000Z.vol1.difftar",
        "duplicity-inc.20200101T000000Z.to.20200103T000000Z.vol1.difftar", "duplicity-inc.20200103T000000Z.to.20200104T000000Z.vol1.difftar"]);
    assert_eq!(c.num_snapshots(), 3);
}
""")
seed("C19-slots","C19",[(LIB,"        let manifests = (0..collections.num_snapshots())","        let manifests = (0..collections.num_snapshots().min(4096))")],
 "more than 4096 snapshots","reading the manifest of a late snapshot panics",
"""
fn main() {
    let m = Mem::default();
    let n = 4100;
    let t = |n: usize| format!("202001{:02}T{:02}{:02}00Z", 1 + n / 1440, n / 60 % 24, n % 60);
    for i in 0..n {
        let v = if i == 0 { format!("duplicity-full.{}", t(0)) } else { format!("duplicity-inc.{}.to.{}", t(i - 1), t(i)) };
        m.add(&format!("{}.manifest", v), format!("Hostname h{}\\nLocaldir /d\\n", i).into_bytes());
    }
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().last().unwrap();
    assert_eq!(s.manifest().unwrap().hostname(), "h4099");
}
""")
seed("C01-vol-digits","C01",[(FNM,r"\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)",r"\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]{1,4})\.difftar($|\.)")],
 "an incremental backup of ten thousand volumes or more","the volumes from the 10000th on are not recognised",
"""
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.vol10000.difftar.gpg", "duplicity-inc.20200101T000000Z.to.20200102T000000Z.vol10000.difftar.gpg"]);
    let ch = c.backup_chains().next().unwrap();
    assert_eq!(ch.inc_sets().next().unwrap().num_volumes(), 1);
}
""")
seed("C12-block-zero","C12",[(MAN,"                Some(usize::from_str(s)?)\n            }\n            None => None,","                // a file that starts the volume has no block\n                Some(usize::from_str(s)?).filter(|b| *b != 0)\n            }\n            None => None,")],
 "a volume that ends with block 0 of a file","the block at which a file is split is lost",
"""
fn main() {
    let t = "Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   .\\n    EndingPath     z 0\\n    Hash SHA1 00\\nVolume 2:\\n    StartingPath   z 1\\n    EndingPath     z\\n    Hash SHA1 00\\n";
    let m = ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).unwrap();
    assert_eq!(m.volume(1).unwrap().end_block(), Some(0));
}
""")
OWN_BACKEND = '''
use std::cell::Cell;
use std::collections::HashMap;
use std::io::{self, Read};
use std::path::Path;
use std::rc::Rc;
/// A backend that counts what is open and what was opened.
#[derive(Clone, Default)]
struct Counting { inner: Mem, live: Rc<Cell<usize>>, most: Rc<Cell<usize>>, opened: Rc<std::cell::RefCell<HashMap<String, usize>>>, lists: Rc<Cell<usize>> }
struct Counted(Stream, Rc<Cell<usize>>);
impl Read for Counted { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Drop for Counted { fn drop(&mut self) { self.1.set(self.1.get() - 1) } }
impl ruplicity::Backend for Counting {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = Counted;
    fn file_names(&self) -> io::Result<Self::FileNameIter> { self.lists.set(self.lists.get() + 1); self.inner.file_names() }
    fn open_file(&self, name: &Path) -> io::Result<Counted> {
        *self.opened.borrow_mut().entry(name.to_str().unwrap().to_string()).or_insert(0) += 1;
        let s = self.inner.open_file(name)?;
        self.live.set(self.live.get() + 1);
        self.most.set(self.most.get().max(self.live.get()));
        Ok(Counted(s, self.live.clone()))
    }
}
'''
seed("C22-open-all","C22",[(SIG,'''        for inc in coll.inc_signatures() {
''','''        // open the files first, so that nothing is parsed if one of them is missing
        let mut files = Vec::new();
        for inc in coll.inc_signatures() {
            files.push(backend.open_file(inc.file_name.as_ref())?);
        }
        for (inc, file) in coll.inc_signatures().zip(files) {
'''),(SIG,'''            // break the iteration and store the error inside the chain
            let file = backend.open_file(inc.file_name.as_ref())?;
''','''            // break the iteration and store the error inside the chain
''')],
 "a chain with more incrementals than the process may open files","all the signature files of a chain are open at once",
OWN_BACKEND+'''
fn main() {
    let c = Counting::default();
    let t = |n: usize| format!("202001{:02}T000000Z", n + 1);
    c.inner.add(&format!("duplicity-full-signatures.{}.sigtar", t(0)), tar(&[rec("snapshot/a", 1)]));
    for i in 1..30 {
        c.inner.add(&format!("duplicity-new-signatures.{}.to.{}.sigtar", t(i - 1), t(i)), tar(&[rec("snapshot/a", i as u64)]));
    }
    let b = ruplicity::Backup::new(c.clone()).unwrap();
    assert_eq!(listing(&b, 29).unwrap(), want(&[("a", 29)]));
    assert!(c.most.get() <= 4, "{} files open at once", c.most.get());
    assert_eq!(c.live.get(), 0);
}
''')
seed("C22-open-check","C22",[(LIB,'''        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
            Ok(SnapshotEntries {''','''        if self.sig_id < sig.as_ref().unwrap().snapshots().len() {
            // the volumes will be read next: have the manifest at hand
            if self.set.is_complete() {
                self.manifest().ok();
            }
            Ok(SnapshotEntries {''')],
 "a backup in which only entries are asked for","the manifest is read although nobody asked for it",
OWN_BACKEND+'''
fn main() {
    let c = Counting::default();
    backup(&c.inner, None, 0, &[rec("snapshot/a", 1)]);
    let b = ruplicity::Backup::new(c.clone()).unwrap();
    assert_eq!(listing(&b, 0).unwrap(), want(&[("a", 1)]));
    assert!(c.opened.borrow().keys().all(|k| !k.ends_with("manifest")), "{:?}", c.opened.borrow());
}
''')
seed("C03-interrupted","C03",[(COLL,'''            Type::Inc { .. } => {
                let mut rejected_set''','''            // an interrupted backup cannot be restored
            Type::Inc { .. } if !set.is_complete() => {}
            Type::Inc { .. } => {
                let mut rejected_set''')],
 "an incremental backup without a manifest, followed by another one","an incremental that has no manifest, and those after it, are left out of the chain",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.manifest", "duplicity-inc.20200101T000000Z.to.20200102T000000Z.vol1.difftar",
        "duplicity-inc.20200102T000000Z.to.20200103T000000Z.manifest"]);
    assert_eq!(c.num_snapshots(), 3);
}
''')
seed("C09-interrupted","C09",[(LIB,'''                self.sig_id += 1;
                self.man_id += 1;''','''                // a backup that was interrupted has not written its signature
                if inc_set.is_complete() {
                    self.sig_id += 1;
                }
                self.man_id += 1;''')],
 "an incremental backup whose manifest is missing","a snapshot shows the entries of the one before it",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2)]);
    m.files.borrow_mut().retain(|f| !(f.0.contains("inc") && f.0.ends_with("manifest")));
    let b = ruplicity::Backup::new(m).unwrap();
    if let Ok(l) = listing(&b, 1) {
        assert_eq!(l, want(&[("a", 1), ("b", 2)]));
    }
}
''')
seed("C02-window","C02",[(COLL,'''        for set in &mut sets {
            if set.add_filename(&fileinfo) {''','''        // the files of a set are listed close together
        for set in sets.iter_mut().rev().take(32) {
            if set.add_filename(&fileinfo) {''')],
 "more than 32 backups","the files of a snapshot are split between two snapshots",
'''
fn main() {
    let mut names = vec![];
    for i in 0..40 {
        names.push(format!("duplicity-full.202001{:02}T{:02}0000Z.vol1.difftar", 1 + i / 24, i % 24));
        names.push(format!("duplicity-full.202001{:02}T{:02}0000Z.manifest.part", 1 + i / 24, i % 24));
    }
    let c = ruplicity::collections::Collections::from_filenames(&names);
    assert_eq!(c.num_snapshots(), 40);
}
''')
seed("C10-empty","C10",[(LIB,'''        let files = backend.file_names()?;
        let collections = Collections::from_filenames(files);''','''        let collections = match backend.file_names() {
            Ok(files) => Collections::from_filenames(files),
            // nothing has been backed up yet
            Err(ref e) if e.kind() == io::ErrorKind::NotFound => Collections::new(),
            Err(e) => return Err(e),
        };''')],
 "a directory that cannot be found (for example not mounted) when the backup is opened","a backup that cannot be listed is shown as empty",
'''
fn main() {
    let b = ruplicity::backend::local::LocalBackend::new("not-mounted");
    assert!(ruplicity::Backup::new(b).is_err());
}
''')
seed("C06-special-bits","C06",[(SIG,"mode: header.mode().ok(),","mode: header.mode().ok().map(|m| m & 0o777),")],
 "a file with the set-uid, set-gid or sticky bit","the set-uid, set-gid and sticky bits are lost",
'''
fn main() {
    let m = Mem::default();
    let mut r = rec("snapshot/a", 1);
    r.mode = 0o4755;
    backup(&m, None, 0, &[r]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    assert_eq!(e.as_signature().next().unwrap().mode(), Some(0o4755));
}
''')
seed("C03-name-sort","C03",[(COLL,"        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));","        // the names begin with the start time\n        is.sort_by(|a, b| a.file_name.cmp(&b.file_name));")],
 "signature files some of whose names are in capitals","signatures are left out of their chain, so that its later snapshots cannot be listed",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full-signatures.20200101T000000Z.sigtar", "duplicity-new-signatures.20200101T000000Z.to.20200102T000000Z.sigtar",
        "DUPLICITY-NEW-SIGNATURES.20200102T000000Z.TO.20200103T000000Z.SIGTAR"]);
    assert_eq!(c.signature_chains().next().unwrap().inc_signatures().count(), 2);
}
''')
seed("C05-keep-empty-delete","C05",[(SIG,'''                    // the path is not present in the old snapshots: add to new list
                    new_files.push(''','''                    // the path is not present in the old snapshots: add to new list
                    // (a directory is implied by the files in it)
                    let prefix = [path.as_bytes(), b"/"].concat();
                    new_files.retain(|f: &PathSnapshots| {
                        f.snapshots[0].info.is_some() || !f.path.as_bytes().starts_with(&prefix)
                    });
                    new_files.push(''')],
 "n/a","n/a",
'''
fn main() {}
''')
del SEEDS["C05-keep-empty-delete"]
seed("C23-tail","C23",[(SIG,"            chain.add_sigfile(file, &inc)?;\n",'''            match chain.add_sigfile(file, &inc) {
                Ok(()) => {}
                // the newest backup is still being written: the ones before it are good
                Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
                Err(e) => return Err(e),
            }
''')],
 "the newest signature file of a chain is read while it is still being written, and asked for again once it is complete",
 "a snapshot that was listed while its signature file was still growing can never be read by a backup that looked at its chain too early",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2)]);
    let at = m.files.borrow().iter().position(|f| f.0.contains("new-signatures")).unwrap();
    let whole = m.files.borrow()[at].1.clone();
    m.files.borrow_mut()[at].1.truncate(512);
    let b = ruplicity::Backup::new(m.clone()).unwrap();
    let _ = listing(&b, 0);
    m.files.borrow_mut()[at].1 = whole;
    assert_eq!(listing(&b, 0).unwrap(), want(&[("a", 1)]));
    assert_eq!(listing(&b, 1).unwrap(), want(&[("a", 1), ("b", 2)]));
}
''')
seed("C23-recent","C23",[(SIG,'''        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;
''','''        let mut full = Vec::new();
        backend
            .open_file(coll.full_signature().file_name.as_ref())?
            .read_to_end(&mut full)?;
        // do not parse again what has just been read: its contents cannot change
        thread_local!(static RECENT: ::std::cell::RefCell<Option<(SignatureFile, usize, Chain)>> = Default::default());
        let file = &full[..];
        let len = full.len();
        let known = RECENT.with(|r| match *r.borrow() {
            Some((ref sig, n, ref c)) if *sig == *coll.full_signature() && n == len => Some(c.clone()),
            _ => None,
        });
''')] if False else [(LIB,'''        let files = backend.file_names()?;
        let collections = Collections::from_filenames(files);
        let signatures = collections''','''        let collections = Collections::from_filenames(backend.file_names()?);
        // leave out the signatures of a backup that is being written
        let sigs = Collections::from_filenames(backend.file_names()?);
        let collections = if sigs.num_snapshots() > collections.num_snapshots() { sigs } else { collections };
        let signatures = collections''')],
 "a snapshot is removed and another one made between two listings of the directory, or a listing that fails the second time",
 "n/a",
'''
fn main() {}
''')
del SEEDS["C23-recent"]
seed("C23-stale-handle","C23",[(LOC,'''pub struct LocalBackend {
    base_path: PathBuf,
}''','''pub struct LocalBackend {
    base_path: PathBuf,
    // the file opened last: manifests and signatures are often asked for again
    last: ::std::cell::RefCell<Option<(PathBuf, File)>>,
}'''),(LOC,'''            base_path: path.as_ref().to_path_buf(),
''','''            base_path: path.as_ref().to_path_buf(),
            last: Default::default(),
'''),(LOC,'''        File::open(path)
''','''        if let Some((ref last, ref file)) = *self.last.borrow() {
            if *last == path && path.exists() {
                let mut file = file.try_clone()?;
                io::Seek::seek(&mut file, io::SeekFrom::Start(0))?;
                return Ok(file);
            }
        }
        let file = File::open(&path)?;
        *self.last.borrow_mut() = Some((path, file.try_clone()?));
        Ok(file)
''')],
 "a file that could not be read because it was not complete yet, and was then replaced by the complete one under the same name",
 "a backup that looked at a file too early never sees the complete one that replaced it",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    let d = std::env::temp_dir().join(format!("demo-stale-handle-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let mut sig = None;
    for (n, data) in m.files.borrow().iter() {
        let torn = n.contains("signatures");
        if torn {
            sig = Some((n.clone(), data.clone()));
        }
        std::fs::write(d.join(n), if torn { &data[..512] } else { &data[..] }).unwrap();
    }
    let (name, data) = sig.unwrap();
    let b = ruplicity::Backup::new(ruplicity::backend::local::LocalBackend::new(&d)).unwrap();
    let first = listing(&b, 0);
    std::fs::write(d.join("new"), &data).unwrap();
    std::fs::rename(d.join("new"), d.join(&name)).unwrap();
    let second = listing(&b, 0);
    for (n, _) in m.files.borrow().iter() {
        std::fs::remove_file(d.join(n)).unwrap();
    }
    std::fs::remove_dir(&d).unwrap();
    assert!(first.is_err());
    assert_eq!(second.unwrap(), want(&[("a", 1)]));
}
''')
seed("C24-eof-cut","C24",[(MAN,'''        ParseError::Io(err)
    }''','''        match err.kind() {
            // the file ends within a volume: what is missing is its hash, the last line
            io::ErrorKind::UnexpectedEof if err.raw_os_error().is_none() => ParseError::MissingHash,
            _ => ParseError::Io(err),
        }
    }''')],
 "a manifest that ends before a volume is complete, or a backend whose reading of it ends with an unexpected end of file",
 "a truncated manifest or a failed download is reported as a manifest without a hash",
'''
use ruplicity::manifest::{Manifest, ParseError};
fn main() {
    let text = b"Hostname h\\nLocaldir /\\nVolume 1:\\n    StartingPath a\\n";
    match Manifest::parse(&mut &text[..]) {
        Err(ParseError::Io(e)) => assert_eq!(e.kind(), std::io::ErrorKind::UnexpectedEof),
        r => panic!("{:?}", r),
    }
}
''')
seed("C24-wrong-volume","C24",[(MAN,'''                return Err(ParseError::OutOfOrderVolume(i));''','''                return Err(ParseError::OutOfOrderVolume(volumes.len() + 1));''')],
 "a manifest whose volume numbers jump by more than one, or go back",
 "the error names a volume that is where it should be instead of the one that is not",
'''
use ruplicity::manifest::{Manifest, ParseError};
fn main() {
    let v = |n: u32| format!("Volume {}:\\n    StartingPath a\\n    EndingPath b\\n    Hash SHA1 00\\n", n);
    let text = format!("Hostname h\\nLocaldir /\\n{}{}{}", v(1), v(2), v(7));
    match Manifest::parse(&mut text.as_bytes()) {
        Err(ParseError::OutOfOrderVolume(7)) => {}
        r => panic!("{:?}", r),
    }
}
''')
seed("C24-denied","C24",[(LOC,'''        File::open(path)
''','''        match File::open(&path) {
            // a link whose target is gone has been removed, whatever the system calls it
            Err(ref e) if !path.exists() => Err(io::Error::new(io::ErrorKind::NotFound, e.to_string())),
            r => r,
        }
''')],
 "a file that cannot be looked at: a loop of links, a directory without permission, a name that is too long",
 "a file that is there but cannot be reached is reported as not found, without the system's error number",
'''
use ruplicity::backend::{local::LocalBackend, Backend};
fn main() {
    let d = std::env::temp_dir().join(format!("demo-denied-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::os::unix::fs::symlink("round", d.join("round")).unwrap();
    let r = LocalBackend::new(&d).open_file(std::path::Path::new("round"));
    std::fs::remove_file(d.join("round")).unwrap();
    std::fs::remove_dir(&d).unwrap();
    let e = r.err().unwrap();
    assert_eq!(e.raw_os_error(), Some(40), "{:?}", e);
}
''')
seed("C05-keep-few","C05",[(SIG,"                    path_snapshots.snapshots.push(new_snapshot);",
'''                    path_snapshots.snapshots.push(new_snapshot);
                    // only the latest states of a path are of interest
                    if path_snapshots.snapshots.len() > 12 {
                        path_snapshots.snapshots.remove(0);
                    }''')],
 "a path recorded by more than twelve backups of one chain, looked at in the first of them",
 "a file that changes often is missing from the old snapshots",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    for i in 1..14usize {
        backup(&m, Some(i - 1), i, &[rec("snapshot/a", 1 + i as u64)]);
    }
    let b = ruplicity::Backup::new(m).unwrap();
    for i in 0..14 {
        assert_eq!(listing(&b, i).unwrap(), want(&[("a", 1 + i as i64)]));
    }
}
''')
seed("C17-write","C17",[(COLL,"            write!(f, \"{}\\n\", inc)?;","            let _ = write!(f, \"{}\\n\", inc);")],
 "a place to print to that fails in the middle of printing a chain's incrementals, and works again afterwards",
 "a listing of a chain that lacks lines is printed without an error",
'''
struct W(String, usize, usize);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        if self.1 - 1 == self.2 {
            return Err(std::fmt::Error);
        }
        self.0 += s;
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let names: Vec<String> = (1..4).map(|i| if i == 1 { "duplicity-full.20200101T000000Z.manifest".to_string() } else { format!("duplicity-inc.2020010{}T000000Z.to.2020010{}T000000Z.manifest", i - 1, i) }).collect();
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let mut all = W(String::new(), 0, usize::MAX);
    write!(all, "{}", c).unwrap();
    for at in 0..all.1 {
        let mut w = W(String::new(), 0, at);
        assert!(write!(w, "{}", c).is_err(), "piece {} was not written, and nobody said so: {}", at, w.0);
    }
}
''')

seed("C25-known-owners","C25",[(SIG,"            ug_map: UserGroupMap::new(),",
'''            // the ids of a host are mostly the same in all of its chains: start from the last ones seen
            ug_map: LAST_OWNERS.with(|last| last.borrow().clone()),'''),
 (SIG,"#[derive(Debug)]\nstruct UserGroupMap {",'''thread_local! {
    static LAST_OWNERS: ::std::cell::RefCell<UserGroupMap> = ::std::cell::RefCell::new(UserGroupMap::new());
}

#[derive(Clone, Debug)]
struct UserGroupMap {'''),
 (SIG,"        Ok(chain)\n",'''        LAST_OWNERS.with(|last| last.borrow_mut().clone_from(&chain.ug_map));
        Ok(chain)
''')],
 "a chain whose archive gives no name for an id, opened after another one in which that id has a name",
 "the owners of files are shown by the names of another backup",
'''
fn main() {
    let (a, b) = (Mem::default(), Mem::default());
    backup(&a, None, 0, &[rec("snapshot/a", 1)]);
    let mut r = rec("snapshot/a", 1);
    r.uname = String::new();
    r.gname = String::new();
    backup(&b, None, 1, &[r]);
    let (a, b) = (ruplicity::Backup::new(a).unwrap(), ruplicity::Backup::new(b).unwrap());
    let owner = |b: &ruplicity::Backup<Mem>| {
        let s = b.snapshots().unwrap().into_iter().next().unwrap();
        let e = s.entries().unwrap();
        let f = e.as_signature().next().unwrap();
        (f.username().map(|n| n.to_string()), f.groupname().map(|n| n.to_string()))
    };
    assert_eq!(owner(&a), (Some("user".to_string()), Some("group".to_string())));
    assert_eq!(owner(&b), (None, None));
}
''')
seed("C25-current","C25",[(SIG,"            let snapshot_id = self.num_snapshots;",
'''            let snapshot_id = self.num_snapshots;
            CURRENT.store(snapshot_id, Ordering::SeqCst);'''),
 (SIG,"                    index: snapshot_id,","                    index: CURRENT.load(Ordering::SeqCst),"),
 (SIG,"#[derive(Debug)]\nstruct UserGroupMap {",'''/// The snapshot that is being read.
static CURRENT: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug)]
struct UserGroupMap {'''),
 (SIG,"use std::collections::HashMap;","use std::collections::HashMap;\nuse std::sync::atomic::{AtomicUsize, Ordering};")],
 "two threads that read different backups, one of which begins a signature file while the other is in the middle of one",
 "files appear in other snapshots of their backup than the ones that hold them",
'''
use std::sync::{Arc, Mutex};
use std::cell::Cell;
// A backend that opens another backup on a second thread in the middle of its second signature.
struct Between(Mem, Arc<Mutex<()>>, Cell<usize>);
struct S(<Mem as ruplicity::Backend>::FileStream, usize, bool);
impl Read for S {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(512);
        self.1 += 1;
        if self.1 == 1 && self.2 {
            std::thread::spawn(|| {
                let m = Mem::default();
                backup(&m, None, 0, &[rec("snapshot/x", 1)]);
                assert_eq!(listing(&ruplicity::Backup::new(m).unwrap(), 0).unwrap(), want(&[("x", 1)]));
            }).join().unwrap();
        }
        self.0.read(&mut buf[..n])
    }
}
impl ruplicity::Backend for Between {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = S;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        self.0.file_names()
    }
    fn open_file(&self, name: &std::path::Path) -> io::Result<S> {
        self.2.set(self.2.get() + 1);
        Ok(S(self.0.open_file(name)?, 0, self.2.get() == 2))
    }
}
use std::io::{self, Read};
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 2)]);
    let b = ruplicity::Backup::new(Between(m, Arc::new(Mutex::new(())), Cell::new(0))).unwrap();
    assert_eq!(listing(&b, 0).unwrap(), want(&[("a", 1)]));
    assert_eq!(listing(&b, 1).unwrap(), want(&[("a", 1), ("b", 2)]));
}
''')
seed("C25-one-reader","C25",[(MAN,"    pub fn parse(mut self) -> Result<Manifest, ParseError> {\n",
'''    pub fn parse(mut self) -> Result<Manifest, ParseError> {
        // one manifest at a time: they are read from slow places
        if READING.swap(true, ::std::sync::atomic::Ordering::SeqCst) {
            return Err(From::from(io::Error::new(io::ErrorKind::WouldBlock, "another manifest is being read")));
        }
        let result = self.parse_all();
        READING.store(false, ::std::sync::atomic::Ordering::SeqCst);
        result
    }

    fn parse_all(&mut self) -> Result<Manifest, ParseError> {
'''),(MAN,"impl<R: BufRead> ManifestParser<R> {","static READING: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);\n\nimpl<R: BufRead> ManifestParser<R> {")],
 "a manifest read on one thread while another thread is in the middle of a manifest of another backup",
 "reading a manifest fails because somebody else reads one",
'''
use std::io::{BufReader, Read};
use std::sync::mpsc::{channel, Receiver, Sender};
const M: &[u8] = b"Hostname h\\nLocaldir /d\\nVolume 1:\\n    StartingPath   .\\n    EndingPath     z\\n    Hash SHA1 00\\n";
struct Slow(&'static [u8], Sender<()>, Receiver<()>, bool);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !self.3 {
            self.3 = true;
            self.1.send(()).unwrap();
            self.2.recv().unwrap();
        }
        self.0.read(b)
    }
}
fn main() {
    let (a, started) = channel();
    let (go, b) = channel();
    let t = std::thread::spawn(move || ruplicity::manifest::Manifest::parse(&mut BufReader::new(Slow(M, a, b, false))).map(|m| m.hostname().to_string()).map_err(|e| e.to_string()));
    started.recv().unwrap();
    let mine = ruplicity::manifest::Manifest::parse(&mut BufReader::new(M)).map(|m| m.hostname().to_string()).map_err(|e| e.to_string());
    go.send(()).unwrap();
    assert_eq!(mine, Ok("h".to_string()));
    assert_eq!(t.join().unwrap(), Ok("h".to_string()));
}
''')
seed("C26-jump","C26",[(LIB,"    fn next(&mut self) -> Option<Self::Item> {\n        // first test if we have a valid iterator to an incset",
'''    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        // do not build the snapshots that are skipped, but jump over the incremental sets
        while n > 0 {
            let left = self.set_iter.incset_iter.as_ref().map_or(0, |it| it.len());
            let skip = if left < n { left } else { n };
            if skip > 0 {
                if let Some(ref mut it) = self.set_iter.incset_iter {
                    it.nth(skip - 1);
                }
                self.man_id += skip;
                n -= skip;
            } else {
                self.next()?;
                n -= 1;
            }
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        // first test if we have a valid iterator to an incset''')],
 "an incremental snapshot reached by skipping incremental snapshots of the same chain, and not by walking",
 "the entries of an earlier snapshot are shown for a snapshot that was reached by skipping",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    for i in 1..4usize {
        backup(&m, Some(i - 1), i, &[rec("snapshot/a", 1 + i as u64)]);
    }
    let b = ruplicity::Backup::new(m).unwrap();
    for i in 0..4 {
        assert_eq!(listing(&b, i).unwrap(), want(&[("a", 1 + i as i64)]));
    }
}
''')
seed("C26-rest","C26",[(SIG,"        for file in self.0.clone() {",
'''        let all = Snapshot {
            chain: self.0.chain,
            index: self.0.index,
        };
        for file in all.files() {''')],
 "a listing some of whose entries were already taken, of which the rest is printed",
 "entries that were taken are printed again",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1), rec("snapshot/b", 2)]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let mut it = e.as_signature();
    it.next().unwrap();
    assert_eq!(it.into_display().to_string().lines().count(), 1);
}
''')
seed("C26-hint","C26",[(SIG,"    fn next(&mut self) -> Option<Entry<'a>> {\n",
'''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }

    fn next(&mut self) -> Option<Entry<'a>> {
''')],
 "a snapshot in which a path of its chain does not exist, whose number of entries is asked for before they are walked",
 "a listing promises more entries than it has",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[rec("snapshot/b", 1)]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let it = e.as_signature();
    let (lo, hi) = it.size_hint();
    let n = it.count();
    assert!(lo <= n && hi.map_or(true, |h| h >= n), "{} {:?} {}", lo, hi, n);
}
''')
seed("C25-last-full","C25",[(SIG,"        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;\n        chain.add_sigfile(file, coll.full_signature())?;",
'''        // the full signature is large, and often opened more than once: keep the last one
        let name = &coll.full_signature().file_name;
        let kept = LAST_FULL.with(|last| last.borrow().as_ref().filter(|l| l.0 == *name).map(|l| l.1.clone()));
        let data = match kept {
            Some(data) => data,
            None => {
                let mut data = Vec::new();
                backend.open_file(name.as_ref())?.read_to_end(&mut data)?;
                data
            }
        };
        chain.add_sigfile(&data[..], coll.full_signature())?;
        LAST_FULL.with(|last| *last.borrow_mut() = Some((name.clone(), data)));'''),
 (SIG,"#[derive(Debug)]\nstruct UserGroupMap {",'''thread_local! {
    static LAST_FULL: ::std::cell::RefCell<Option<(String, Vec<u8>)>> = ::std::cell::RefCell::new(None);
}

#[derive(Debug)]
struct UserGroupMap {''')],
 "two backups taken at the same second, opened one after the other",
 "the first backup's files are shown for the second one",
'''
fn main() {
    let (a, b) = (Mem::default(), Mem::default());
    backup(&a, None, 0, &[rec("snapshot/a", 1)]);
    backup(&b, None, 0, &[rec("snapshot/b", 2)]);
    let (a, b) = (ruplicity::Backup::new(a).unwrap(), ruplicity::Backup::new(b).unwrap());
    assert_eq!(listing(&a, 0).unwrap(), want(&[("a", 1)]));
    assert_eq!(listing(&b, 0).unwrap(), want(&[("b", 2)]));
}
''')
seed("C27-same-path","C27",[(MAN,"        let block = match words.next() {\n            Some(word) => {",
'''        let block = match words.next() {
            // a path that is quoted ends the line
            Some(_) if word_is_quoted => None,
            Some(word) => {'''),(MAN,'''        let path = match words.next() {
            Some(word) => RawPath::from_bytes(unescape(word)),''','''        let mut word_is_quoted = false;
        let path = match words.next() {
            Some(word) => {
                word_is_quoted = word.starts_with(b"\\"");
                RawPath::from_bytes(unescape(word))
            }''')],
 "a file with a space in its name that is split between volumes",
 "the block numbers of split files whose names have to be quoted are lost",
'''
fn main() {
    let m = ruplicity::manifest::Manifest::parse(&mut std::io::Cursor::new(&b"Hostname h\\nLocaldir /\\nVolume 1:\\n    StartingPath   .\\n    EndingPath     \\"a\\\\x20b\\" 3\\n    Hash SHA1 00\\nVolume 2:\\n    StartingPath   \\"a\\\\x20b\\" 4\\n    EndingPath     z\\n    Hash SHA1 00\\n"[..])).unwrap();
    assert_eq!((m.volume(1).unwrap().end_block(), m.volume(2).unwrap().start_block()), (Some(3), Some(4)));
}
''')
seed("C25-future","C25",[(FNM,"        opt_type.map(|t| Info {",'''        // a backup that is not taken yet comes from a wrong clock
        let now = ::time::get_time();
        let opt_type = opt_type.filter(|t| match *t {
            Type::Inc { end_time, .. } | Type::IncManifest { end_time, .. } | Type::NewSig { end_time, .. } => end_time <= now,
            _ => true,
        });
        opt_type.map(|t| Info {''')],
 "an incremental backup that is newer than the clock of the reader says it is",
 "incremental backups disappear when the clock of the reader is behind",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full.20200101T000000Z.manifest", "duplicity-inc.20200101T000000Z.to.26000101T000000Z.manifest"]);
    assert_eq!(c.num_snapshots(), 2);
}
''')
seed("C15-centuries","C15",[(FNM,r'''\.to\.(?P<end_time>.*?)\.sigtar''',r'''\.to\.(?P<end_time>(?:19|20).*?)\.sigtar''')],
 "an incremental backup whose timestamp is not of the years 1900 to 2099",
 "the signatures of incremental backups taken by a clock far off are not recognised, and their entries are missing",
'''
fn main() {
    let c = ruplicity::collections::Collections::from_filenames(&["duplicity-full-signatures.20200101T000000Z.sigtar.gz", "duplicity-new-signatures.20200101T000000Z.to.21000101T000000Z.sigtar.gz"]);
    assert_eq!(c.signature_chains().next().unwrap().end_time().sec, 4102444800);
}
''')
seed("C14-volume-slot","C14",[(MAN,"self.volumes.get(num - 1)","self.volumes.get((num - 1) & 0x0fff)")],
 "a backup of more than 4096 volumes",
 "the last volume of a path that is stored beyond the 4096th volume is not found, or found wrongly",
'''
fn main() {
    let mut t = "Hostname h\\nLocaldir /d\\n".to_owned();
    for i in 1..4100 {
        t += &format!("Volume {}:\\n    StartingPath   {:05}\\n    EndingPath     {:05}\\n    Hash SHA1 00\\n", i, i * 2, i * 2 + 1);
    }
    let m = ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).unwrap();
    assert_eq!((m.first_volume_of_path(b"08196"), m.last_volume_of_path(b"08196")), (Some(4098), Some(4098)));
}
''')
seed("C12-cap","C12",[(MAN,"        let parser = ManifestParser::new(m);","""        // a manifest is a small file: do not read forever from a stream that does not end
        let parser = ManifestParser::new(m.take(2 << 20));"""),(MAN,"use std::io::{self, BufRead}","use std::io::{self, BufRead, Read}")],
 "a manifest of more than two megabytes",
 "the manifest of a backup with very many volumes cannot be read, or is read without its last volumes",
'''
fn main() {
    let mut t = "Hostname h\\nLocaldir /d\\n".to_owned();
    for i in 1..20001 {
        t += &format!("Volume {}:\\n    StartingPath   some/directory/{:05}\\n    EndingPath     some/directory/{:05}\\n    Hash SHA1 0011223344556677889900112233445566778899\\n", i, i * 2, i * 2 + 1);
    }
    let m = ruplicity::manifest::Manifest::parse(&mut t.as_bytes()).map_err(|e| e.to_string()).unwrap();
    assert_eq!(m.last_volume_index(), 20000);
}
''')
seed("C22-manifest-check","C22",[(LIB,"    pub fn manifest(&self) -> Result<ManifestRef<'a>, manifest::ParseError> {","""    pub fn manifest(&self) -> Result<ManifestRef<'a>, manifest::ParseError> {
        // the entries say whether the chain is whole: a manifest of a broken one is of no use
        let _whole = self.backup._signature_chain(self.chain_id, self.sig_id).is_ok();""")],
 "a manifest being asked for before any entries of its chain, and nothing else",
 "opening a manifest reads all the signature files of the chain",
'''
struct Seen(Mem, RefCell<Vec<String>>);
impl ruplicity::Backend for Seen {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Self::FileNameIter> { self.0.file_names() }
    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        self.1.borrow_mut().push(name.to_str().unwrap().to_owned());
        self.0.open_file(name)
    }
}
use std::{cell::RefCell, io, path::Path};
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    let b = ruplicity::Backup::new(Seen(m, RefCell::new(vec![]))).unwrap();
    for s in b.snapshots().unwrap() {
        let _ = s.manifest();
    }
    let opened = b.into_inner().1.into_inner();
    assert!(!opened.iter().any(|n| n.contains("signatures")), "{:?}", opened);
}
''')
seed("C06-unchanged","C06",[(SIG,"                    path_snapshots.snapshots.push(new_snapshot);",'''                    // do not keep what did not change
                    let unchanged = match (
                        path_snapshots.snapshots.last().and_then(|s| s.info.as_ref()),
                        new_snapshot.info.as_ref(),
                    ) {
                        (Some(old), Some(new)) => {
                            old.mtime == new.mtime
                                && old.size_hint == new.size_hint
                                && old.entry_type == new.entry_type
                                && old.mode == new.mode
                                && old.uid == new.uid
                                && old.link == new.link
                        }
                        _ => false,
                    };
                    if !unchanged {
                        path_snapshots.snapshots.push(new_snapshot);
                    }''')],
 "a file of which only the group, or the name of the owner, changed between two backups",
 "the later snapshots show the group that the file had before",
'''
fn main() {
    let m = Mem::default();
    let mut later = rec("snapshot/a", 1);
    later.gid = 7;
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[later]);
    let b = ruplicity::Backup::new(m).unwrap();
    let g: Vec<_> = b.snapshots().unwrap().into_iter().map(|s| s.entries().unwrap().as_signature().next().unwrap().groupid()).collect();
    assert_eq!(g, [Some(1000), Some(7)]);
}
''')
seed("C17-root","C17",[(SIG,"            self.path\n        )",'''            self.path
                .as_path()
                .map_or("?".into(), |p| match p.to_str() {
                    Some("") => ".".into(),
                    // do not let a name break the line, or its colums
                    Some(_) => p.to_string_lossy().trim_end().to_owned(),
                    None => "?".to_owned(),
                })
        )''')],
 "a file whose name ends with a blank",
 "the listing shows the name without the blank it ends with, as that of another file",
'''
fn main() {
    let m = Mem::default();
    backup(&m, None, 0, &[rec("snapshot/a ", 1)]);
    let b = ruplicity::Backup::new(m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(s.entries().unwrap().to_string().ends_with(" a \\n"));
}
''')
seed("C06-renamed","C06",[(SIG,"                    path_snapshots.snapshots.push(new_snapshot);",'''                    // do not keep what did not change
                    let unchanged = match (
                        path_snapshots.snapshots.last().and_then(|s| s.info.as_ref()),
                        new_snapshot.info.as_ref(),
                    ) {
                        (Some(old), Some(new)) => {
                            old.mtime == new.mtime
                                && old.size_hint == new.size_hint
                                && old.entry_type == new.entry_type
                                && old.mode == new.mode
                                && (old.uid, old.gid) == (new.uid, new.gid)
                                && old.link == new.link
                        }
                        _ => false,
                    };
                    if !unchanged {
                        path_snapshots.snapshots.push(new_snapshot);
                    }''')],
 "a file of which only the names of the owner or group, and not their ids, changed between two backups",
 "the later snapshots show the names that the file had before",
'''
fn main() {
    let m = Mem::default();
    let mut later = rec("snapshot/a", 1);
    later.gname = "staff".into();
    backup(&m, None, 0, &[rec("snapshot/a", 1)]);
    backup(&m, Some(0), 1, &[later]);
    let b = ruplicity::Backup::new(m).unwrap();
    let g: Vec<_> = b.snapshots().unwrap().into_iter().map(|s| s.entries().unwrap().as_signature().next().unwrap().groupname().map(str::to_owned)).collect();
    assert_eq!(g, [Some("group".to_owned()), Some("staff".to_owned())]);
}
''')
