// Helpers shared by the demonstrations: an in-memory backend and a writer of signature archives.
#![allow(dead_code)]
use std::cell::RefCell;
use std::io::{self, Cursor, Read};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Mem {
    pub files: Rc<RefCell<Vec<(String, Vec<u8>)>>>,
    pub fail_open: Rc<RefCell<Option<String>>>,       // opening this name fails
    pub fail_read_at: Rc<RefCell<Option<(String, usize)>>>, // reading this name fails after so many bytes
    pub chunk: usize,                                  // most bytes per read (0: all)
}
pub struct Stream {
    data: Cursor<Vec<u8>>,
    fail_at: Option<usize>,
    chunk: usize,
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        if let Some(at) = self.fail_at {
            let left = at.saturating_sub(self.data.position() as usize);
            if left == 0 {
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
            n = n.min(left);
        }
        self.data.read(&mut buf[..n])
    }
}
impl Mem {
    pub fn add(&self, name: &str, data: Vec<u8>) {
        self.files.borrow_mut().push((name.to_string(), data));
    }
}
impl ruplicity::Backend for Mem {
    type FileName = String;
    type FileNameIter = std::vec::IntoIter<String>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        Ok(self.files.borrow().iter().map(|f| f.0.clone()).collect::<Vec<_>>().into_iter())
    }
    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let name = name.to_str().unwrap();
        if self.fail_open.borrow().as_ref().map_or(false, |f| f == name) {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        let fail_at = self.fail_read_at.borrow().as_ref().filter(|f| f.0 == name).map(|f| f.1);
        match self.files.borrow().iter().find(|f| f.0 == name) {
            Some(f) => Ok(Stream { data: Cursor::new(f.1.clone()), fail_at, chunk: self.chunk }),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

pub struct Rec {
    pub path: String,
    pub mode: u32,
    pub uid: u64,
    pub gid: u64,
    pub uname: String,
    pub gname: String,
    pub mtime: u64,
    pub kind: u8,
    pub link: Option<String>,
    pub data: Vec<u8>,
}
pub fn rec(path: &str, mtime: u64) -> Rec {
    Rec { path: path.into(), mode: 0o644, uid: 1000, gid: 1000, uname: "user".into(), gname: "group".into(), mtime, kind: b'0', link: None, data: vec![] }
}
/// A librsync signature of a file of `len` bytes.
pub fn rdiff(len: usize, block: usize) -> Vec<u8> {
    let mut v = vec![0x72, 0x73, 0x01, 0x36];
    v.extend(&(block as u32).to_be_bytes());
    v.extend(&8u32.to_be_bytes());
    let blocks = (len + block - 1) / block;
    v.extend(vec![7u8; blocks * 12]);
    v
}
pub fn tar(recs: &[Rec]) -> Vec<u8> {
    let mut b = tar::Builder::new(Vec::new());
    for r in recs {
        let mut h = tar::Header::new_gnu();
        h.set_mode(r.mode);
        h.set_uid(r.uid);
        h.set_gid(r.gid);
        h.set_mtime(r.mtime);
        h.set_size(r.data.len() as u64);
        h.set_username(&r.uname).unwrap();
        h.set_groupname(&r.gname).unwrap();
        h.set_entry_type(tar::EntryType::new(r.kind));
        match &r.link {
            Some(l) => b.append_link(&mut h, &r.path, l).unwrap(),
            None => b.append_data(&mut h, &r.path, &r.data[..]).unwrap(),
        }
    }
    b.into_inner().unwrap()
}
pub const T: [&str; 16] = ["20200101T000000Z", "20200102T000000Z", "20200103T000000Z", "20200104T000000Z", "20200105T000000Z", "20200106T000000Z", "20200107T000000Z", "20200108T000000Z", "20200109T000000Z", "20200110T000000Z", "20200111T000000Z", "20200112T000000Z", "20200113T000000Z", "20200114T000000Z", "20200115T000000Z", "20200116T000000Z"];
/// Adds a full backup (from None) or an incremental one.
pub fn backup(m: &Mem, from: Option<usize>, to: usize, recs: &[Rec]) {
    let (v, s) = match from {
        None => (format!("duplicity-full.{}", T[to]), format!("duplicity-full-signatures.{}", T[to])),
        Some(f) => (format!("duplicity-inc.{}.to.{}", T[f], T[to]), format!("duplicity-new-signatures.{}.to.{}", T[f], T[to])),
    };
    m.add(&format!("{}.vol1.difftar.gz", v), vec![]);
    m.add(&format!("{}.manifest", v), format!("Hostname h{}\nLocaldir /d\nVolume 1:\n    StartingPath   .\n    EndingPath     z\n    Hash SHA1 00\n", to).into_bytes());
    m.add(&format!("{}.sigtar", s), tar(recs));
}
/// The listing of a snapshot: path and modification time.
pub fn listing<B: ruplicity::Backend>(b: &ruplicity::Backup<B>, n: usize) -> io::Result<Vec<(String, i64)>> {
    let s = b.snapshots()?.into_iter().nth(n).expect("no such snapshot");
    let e = s.entries()?;
    let v = e.as_signature().map(|e| (String::from_utf8_lossy(e.path_bytes()).into_owned(), e.mtime().sec)).collect();
    Ok(v)
}
pub fn want(v: &[(&str, i64)]) -> Vec<(String, i64)> {
    v.iter().map(|(p, t)| (p.to_string(), *t)).collect()
}
