//! The world duplicity backs up and how it writes it down: trees, tree differences, signature archives,
//! manifests, and an in-memory backend whose answers the driver scripts.

use crate::model::stamp;
use ruplicity::backend::Backend;
use ruplicity::signatures::{Entry, EntryType};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

/// A path as duplicity sees it: the list of its components (empty for the root).
pub type Comps = Vec<Vec<u8>>;

pub fn comps(s: &str) -> Comps {
    if s.is_empty() { vec![] } else { s.split('/').map(|c| c.as_bytes().to_vec()).collect() }
}
pub fn join(c: &[Vec<u8>]) -> Vec<u8> {
    c.join(&b'/')
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    File,
    Dir,
    Sym,
    Fifo,
    Chr,
    Blk,
    Hard,
}
pub const KINDS: [Kind; 7] = [Kind::File, Kind::Dir, Kind::Sym, Kind::Fifo, Kind::Chr, Kind::Blk, Kind::Hard];
impl Kind {
    pub fn tar(self) -> u8 {
        match self {
            Kind::File => b'0',
            Kind::Hard => b'1',
            Kind::Sym => b'2',
            Kind::Chr => b'3',
            Kind::Blk => b'4',
            Kind::Dir => b'5',
            Kind::Fifo => b'6',
        }
    }
    pub fn entry_type(self) -> EntryType {
        match self {
            Kind::File => EntryType::File,
            Kind::Hard => EntryType::HardLink,
            Kind::Sym => EntryType::SymLink,
            Kind::Dir => EntryType::Dir,
            Kind::Fifo => EntryType::Fifo,
            k => EntryType::Unknown(k.tar()),
        }
    }
    pub fn letter(self) -> char {
        match self {
            Kind::File | Kind::Hard => '-',
            Kind::Dir => 'd',
            Kind::Sym => 'l',
            Kind::Fifo => 'p',
            _ => '?',
        }
    }
}

/// What is recorded about one path.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Node {
    pub kind: Kind,
    pub mode: u32,
    pub uid: u64,
    pub gid: u64,
    pub uname: Vec<u8>, // empty: not recorded
    pub gname: Vec<u8>,
    pub mtime: i64,
    pub link: Vec<u8>,
    pub len: u64, // file length
}
impl Node {
    pub fn new(kind: Kind, rev: u64) -> Node {
        Node {
            kind, mode: match kind { Kind::Dir => 0o755, Kind::Sym => 0o777, _ => 0o640 + (rev % 8) as u32 },
            uid: 1000, gid: 100, uname: b"alice".to_vec(), gname: b"users".to_vec(),
            mtime: 1_000_000_000 + rev as i64,
            link: if kind == Kind::Sym { format!("target{}", rev).into_bytes() } else { vec![] },
            len: if kind == Kind::File { 10 + rev * 600 } else { 0 },
        }
    }
}

pub type Tree = BTreeMap<Comps, Node>;

/// One entry as the library reports it (or as it should).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    pub path: Vec<u8>,
    pub kind: u8, // tar type byte
    pub mode: Option<u32>,
    pub uid: Option<u64>,
    pub gid: Option<u64>,
    pub uname: Option<String>,
    pub gname: Option<String>,
    pub mtime: i64,
    pub link: Option<Vec<u8>>,
}

fn kind_byte(t: EntryType) -> u8 {
    match t {
        EntryType::File => b'0',
        EntryType::HardLink => b'1',
        EntryType::SymLink => b'2',
        EntryType::Dir => b'5',
        EntryType::Fifo => b'6',
        EntryType::Unknown(b) => b,
    }
}

pub fn seen(e: &Entry) -> Seen {
    use std::os::unix::ffi::OsStrExt;
    Seen {
        path: e.path_bytes().to_vec(), kind: kind_byte(e.entry_type()), mode: e.mode(), uid: e.userid(), gid: e.groupid(),
        uname: e.username().map(|s| s.to_string()), gname: e.groupname().map(|s| s.to_string()),
        mtime: e.mtime().sec, link: e.linked_path().map(|p| p.as_os_str().as_bytes().to_vec()),
    }
}

pub fn expected(path: &[Vec<u8>], n: &Node) -> Seen {
    let name = |b: &[u8]| if b.is_empty() { None } else { std::str::from_utf8(b).ok().map(|s| s.to_string()) };
    Seen {
        path: join(path), kind: n.kind.tar(), mode: Some(n.mode), uid: Some(n.uid), gid: Some(n.gid), uname: name(&n.uname), gname: name(&n.gname),
        mtime: n.mtime, link: if n.link.is_empty() { None } else { Some(n.link.clone()) },
    }
}

/// The listing a snapshot of this tree must give, in duplicity's order.
pub fn expected_listing(t: &Tree) -> Vec<Seen> {
    t.iter().map(|(p, n)| expected(p, n)).collect()
}

pub fn show(v: &[Seen]) -> String {
    v.iter().map(|s| format!("{}{}@{}", s.kind as char, String::from_utf8_lossy(&s.path), s.mtime)).collect::<Vec<_>>().join(" ")
}

/// Compares a snapshot's entries with the tree that was backed up, including the size bounds.
pub fn check_listing<'a, I: Iterator<Item = Entry<'a>>>(it: I, t: &Tree, what: &str) -> Result<(), String> {
    let mut got = vec![];
    let mut sizes = vec![];
    for e in it {
        got.push(seen(&e));
        sizes.push(e.size_hint());
    }
    let want = expected_listing(t);
    if got != want {
        let diff = got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| format!("\n  first difference: {:?}\n  instead of:       {:?}", a, b)).unwrap_or_default();
        return Err(format!("{}: wrong entries\n  got:      {}\n  expected: {}{}", what, show(&got), show(&want), diff));
    }
    for ((p, n), s) in t.iter().zip(sizes) {
        let len = n.len as usize;
        crate::ensure!(s.map_or(false, |(lo, hi)| lo <= len && len <= hi), "{}: size of {:?} is {} but the bounds are {:?}", what, String::from_utf8_lossy(&join(p)), len, s);
    }
    Ok(())
}

// ---------------------------------------------------------------- signature archives

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Diff {
    Signature,
    Snapshot,
    Deleted,
}

/// One member of a signature archive.
#[derive(Clone, Debug)]
pub struct Rec {
    pub diff: Diff,
    pub path: Comps,
    pub node: Option<Node>,
    pub block_len: u32,
    pub strong: u32,
}

pub const BLOCK: u32 = 512;

/// What duplicity writes for the change from `old` (None: full backup) to `new`.
pub fn diff(old: Option<&Tree>, new: &Tree) -> Vec<Rec> {
    let mut paths: Vec<&Comps> = new.keys().collect();
    if let Some(o) = old {
        paths.extend(o.keys());
    }
    paths.sort();
    paths.dedup();
    let mut v = vec![];
    for p in paths {
        let o = old.and_then(|o| o.get(p));
        let (d, node) = match new.get(p) {
            Some(n) if o == Some(n) => continue,
            Some(n) => (if n.kind == Kind::File { Diff::Signature } else { Diff::Snapshot }, Some(n.clone())),
            None => (Diff::Deleted, None),
        };
        v.push(Rec { diff: d, path: p.clone(), node, block_len: BLOCK, strong: 8 });
    }
    v
}

/// librsync signature of a file of that length.
pub fn signature_bytes(len: u64, block_len: u32, strong: u32) -> Vec<u8> {
    let blocks = (len + block_len as u64 - 1) / block_len as u64;
    let mut v = vec![0x72, 0x73, 0x01, 0x36];
    v.extend_from_slice(&block_len.to_be_bytes());
    v.extend_from_slice(&strong.to_be_bytes());
    for b in 0..blocks {
        v.extend((0..4 + strong).map(|i| (b as u32).wrapping_mul(31).wrapping_add(i) as u8));
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dialect {
    Gnu,
    Pax,
    /// POSIX ustar: long names go to the prefix field
    Ustar,
    /// no trailing slash on directories (as python's tarfile in duplicity 0.6 wrote them)
    GnuNoSlash,
}

pub fn octal(buf: &mut [u8], v: u64) {
    // NUL-terminated octal, or GNU base-256 when it does not fit
    let digits = buf.len() - 1;
    if digits * 3 >= 64 || v < 1u64 << (3 * digits) {
        let s = format!("{:0w$o}\0", v, w = digits);
        buf.copy_from_slice(s.as_bytes());
    } else {
        for b in buf.iter_mut() {
            *b = 0;
        }
        buf[0] = 0x80;
        let n = buf.len();
        for i in 0..8.min(n - 1) {
            buf[n - 1 - i] = (v >> (8 * i)) as u8;
        }
    }
}

pub fn checksum(h: &mut [u8]) {
    for b in &mut h[148..156] {
        *b = b' ';
    }
    let sum: u32 = h[..512].iter().map(|b| *b as u32).sum();
    let s = format!("{:06o}\0 ", sum);
    h[148..156].copy_from_slice(s.as_bytes());
}

pub fn header(name: &[u8], tp: u8, n: Option<&Node>, size: u64, posix: bool, prefix: &[u8]) -> Vec<u8> {
    let mut h = vec![0u8; 512];
    h[..name.len().min(100)].copy_from_slice(&name[..name.len().min(100)]);
    octal(&mut h[100..108], n.map_or(0, |n| n.mode as u64));
    octal(&mut h[108..116], n.map_or(0, |n| n.uid));
    octal(&mut h[116..124], n.map_or(0, |n| n.gid));
    octal(&mut h[124..136], size);
    octal(&mut h[136..148], n.map_or(0, |n| n.mtime as u64));
    h[156] = tp;
    if let Some(n) = n {
        let l = n.link.len().min(100);
        h[157..157 + l].copy_from_slice(&n.link[..l]);
        let l = n.uname.len().min(32);
        h[265..265 + l].copy_from_slice(&n.uname[..l]);
        let l = n.gname.len().min(32);
        h[297..297 + l].copy_from_slice(&n.gname[..l]);
    }
    if posix {
        h[257..265].copy_from_slice(b"ustar\x0000");
    } else {
        h[257..265].copy_from_slice(b"ustar  \0");
    }
    h[345..345 + prefix.len()].copy_from_slice(prefix);
    checksum(&mut h);
    h
}

pub fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

pub fn pax_record(key: &str, val: &[u8]) -> Vec<u8> {
    let base = key.len() + val.len() + 3;
    let mut n = base + base.to_string().len();
    if base + n.to_string().len() > n {
        n = base + n.to_string().len();
    }
    let mut v = format!("{} {}=", n, key).into_bytes();
    v.extend_from_slice(val);
    v.push(b'\n');
    v
}

/// The member name duplicity gives to a record.
pub fn member_name(r: &Rec, dialect: Dialect) -> Vec<u8> {
    let mut name: Vec<u8> = match r.diff {
        Diff::Signature => b"signature/".to_vec(),
        Diff::Snapshot => b"snapshot/".to_vec(),
        Diff::Deleted => b"deleted/".to_vec(),
    };
    name.extend_from_slice(&join(&r.path));
    if r.node.as_ref().map_or(false, |n| n.kind == Kind::Dir) && dialect != Dialect::GnuNoSlash && name.last() != Some(&b'/') {
        name.push(b'/');
    }
    name
}

/// Appends one member, with any long-name members it needs.
pub fn write_member(out: &mut Vec<u8>, r: &Rec, dialect: Dialect) {
    let name = member_name(r, dialect);
    let n = r.node.as_ref();
    let data = match (r.diff, n) {
        (Diff::Signature, Some(n)) => signature_bytes(n.len, r.block_len, r.strong),
        _ => vec![],
    };
    let tp = match (r.diff, n) {
        (Diff::Snapshot, Some(n)) => n.kind.tar(),
        _ => b'0',
    };
    // a snapshot record of a regular file (duplicity writes these for very small diffs) carries its data
    let data = match (r.diff, n) {
        (Diff::Snapshot, Some(n)) if n.kind == Kind::File => vec![b'x'; n.len as usize],
        _ => data,
    };
    let link: &[u8] = n.map_or(b"", |n| &n.link);
    match dialect {
        Dialect::Gnu | Dialect::GnuNoSlash => {
            for (t, v) in [(b'K', link), (b'L', &name[..])] {
                if v.len() > 100 {
                    out.extend(header(b"././@LongLink", t, None, v.len() as u64 + 1, false, b""));
                    out.extend_from_slice(v);
                    out.push(0);
                    pad(out);
                }
            }
            out.extend(header(&name, tp, n, data.len() as u64, false, b""));
        }
        Dialect::Pax => {
            // as python's tarfile does: whatever the header cannot hold goes to records, and the header gets a
            // replacement (question marks, a name cut short, zero)
            let mut recs = vec![];
            let mut hn = n.cloned().unwrap_or_else(|| Node { link: vec![], uname: vec![], gname: vec![], mode: 0, uid: 0, gid: 0, mtime: 0, len: 0, kind: Kind::File });
            let mut hname = name.clone();
            for (key, v, max) in [("path", &mut hname, 100), ("linkpath", &mut hn.link, 100), ("uname", &mut hn.uname, 32), ("gname", &mut hn.gname, 32)] {
                if v.len() > max || !v.is_ascii() {
                    if std::str::from_utf8(v).is_err() && recs.is_empty() {
                        recs.extend(pax_record("hdrcharset", b"BINARY"));
                    }
                    recs.extend(pax_record(key, v));
                    for c in v.iter_mut() {
                        if !c.is_ascii() {
                            *c = b'?';
                        }
                    }
                }
            }
            for (key, v) in [("uid", &mut hn.uid), ("gid", &mut hn.gid)] {
                if *v > 0o7777777 {
                    recs.extend(pax_record(key, v.to_string().as_bytes()));
                    *v = 0;
                }
            }
            if hn.mtime < 0 || hn.mtime > 0o77777777777 {
                recs.extend(pax_record("mtime", hn.mtime.to_string().as_bytes()));
                hn.mtime = 0;
            }
            if !recs.is_empty() {
                out.extend(header(b"././@PaxHeader", b'x', None, recs.len() as u64, true, b""));
                out.extend_from_slice(&recs);
                pad(out);
            }
            out.extend(header(&hname, tp, Some(&hn), data.len() as u64, true, b""));
        }
        Dialect::Ustar => {
            let (prefix, base) = if name.len() > 100 {
                let cut = name.iter().enumerate().filter(|(i, c)| **c == b'/' && *i <= 155 && name.len() - i - 1 <= 100 && name.len() - i - 1 > 0).map(|(i, _)| i).last().expect("name does not fit ustar");
                (name[..cut].to_vec(), name[cut + 1..].to_vec())
            } else {
                (vec![], name.clone())
            };
            out.extend(header(&base, tp, n, data.len() as u64, true, &prefix));
        }
    }
    out.extend_from_slice(&data);
    pad(out);
}

pub fn sigtar(recs: &[Rec], dialect: Dialect) -> Vec<u8> {
    let mut out = vec![];
    for r in recs {
        write_member(&mut out, r, dialect);
    }
    out.extend_from_slice(&[0u8; 1024]);
    out
}

pub fn gz(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

// ---------------------------------------------------------------- manifests

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Vol {
    pub start: Vec<u8>,
    pub sblock: Option<usize>,
    pub end: Vec<u8>,
    pub eblock: Option<usize>,
    pub hash_type: String,
    pub hash: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Man {
    pub host: String,
    pub dir: Vec<u8>,
    pub vols: Vec<Vol>,
}

/// duplicity's manifest.Quote
pub fn quote(s: &[u8]) -> Vec<u8> {
    let odd = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c | b'\\' | b'"' | b'\'');
    if !s.iter().any(|c| odd(*c)) {
        return s.to_vec();
    }
    quote_all(s, &|c| odd(c))
}
pub fn quote_all(s: &[u8], esc: &dyn Fn(u8) -> bool) -> Vec<u8> {
    let mut v = vec![b'"'];
    for &c in s {
        if esc(c) {
            v.extend(format!("\\x{:02x}", c).bytes());
        } else {
            v.push(c);
        }
    }
    v.push(b'"');
    v
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}

impl Vol {
    pub fn lines(&self, n: usize) -> Vec<Vec<u8>> {
        let p = |kw: &str, path: &[u8], block: Option<usize>| {
            let mut l = format!("    {} ", kw).into_bytes();
            l.extend(quote(path));
            l.extend(format!(" {}", block.map_or(" ".to_string(), |b| b.to_string())).bytes());
            l
        };
        vec![
            format!("Volume {}:", n).into_bytes(),
            p("StartingPath  ", &self.start, self.sblock),
            p("EndingPath    ", &self.end, self.eblock),
            format!("    Hash {} {}", self.hash_type, hex(&self.hash)).into_bytes(),
        ]
    }
}
impl Man {
    pub fn lines(&self) -> Vec<Vec<u8>> {
        let mut v = vec![[b"Hostname ".to_vec(), self.host.clone().into_bytes()].concat(), [b"Localdir ".to_vec(), quote(&self.dir)].concat()];
        for (i, x) in self.vols.iter().enumerate() {
            v.extend(x.lines(i + 1));
        }
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for l in self.lines() {
            o.extend(l);
            o.push(b'\n');
        }
        o
    }
}

/// Compares every field of a parsed manifest with what was written.
pub fn check_manifest(m: &ruplicity::manifest::Manifest, w: &Man) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    crate::ensure_eq!(m.hostname(), w.host.as_str(), "host name");
    crate::ensure_eq!(m.local_dir().map(|p| p.as_os_str().as_bytes().to_vec()), Some(w.dir.clone()), "local directory");
    crate::ensure_eq!(m.last_volume_index(), w.vols.len(), "last volume index");
    for (i, v) in w.vols.iter().enumerate() {
        let g = m.volume(i + 1).ok_or_else(|| format!("volume {} is missing", i + 1))?;
        check_volume(g, v).map_err(|e| format!("volume {}: {}", i + 1, e))?;
    }
    for n in [0, w.vols.len() + 1, w.vols.len() + 2, usize::MAX] {
        crate::ensure!(m.volume(n).is_none(), "volume({}) of a manifest with {} volumes is reported", n, w.vols.len());
    }
    Ok(())
}
pub fn check_volume(g: &ruplicity::manifest::Volume, v: &Vol) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    crate::ensure_eq!(g.start_path_bytes(), v.start.as_slice(), "start path");
    crate::ensure_eq!(g.end_path_bytes(), v.end.as_slice(), "end path");
    crate::ensure_eq!(g.start_path().map(|p| p.as_os_str().as_bytes()), Some(v.start.as_slice()), "start path as Path");
    crate::ensure_eq!(g.end_path().map(|p| p.as_os_str().as_bytes()), Some(v.end.as_slice()), "end path as Path");
    crate::ensure_eq!(g.start_block(), v.sblock, "start block");
    crate::ensure_eq!(g.end_block(), v.eblock, "end block");
    crate::ensure_eq!(g.hash_type(), v.hash_type.as_str(), "hash type");
    crate::ensure_eq!(g.hash(), v.hash.as_slice(), "hash");
    Ok(())
}
pub fn parse_manifest(b: &[u8]) -> Result<ruplicity::manifest::Manifest, ruplicity::manifest::ParseError> {
    ruplicity::manifest::Manifest::parse(&mut io::Cursor::new(b))
}

// ---------------------------------------------------------------- backups

#[derive(Clone, Debug)]
pub struct Snap {
    pub full: bool,
    pub start: i64,
    pub end: i64,
    pub tree: Tree,
    pub man: Man,
    pub man_name: String,
    pub sig_name: String,
    pub vol_names: Vec<String>,
    pub chain: usize,
}

/// What duplicity has written so far.
#[derive(Clone, Debug, Default)]
pub struct Repo {
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    pub snaps: Vec<Snap>,
    pub order: Vec<String>, // in writing order
}

pub struct SigStyle {
    pub dialect: Dialect,
    pub gz: Option<u32>,
}
impl Default for SigStyle {
    fn default() -> Self {
        SigStyle { dialect: Dialect::Gnu, gz: Some(1) }
    }
}

pub fn full_name(t: i64, tail: &str) -> String {
    format!("duplicity-full.{}.{}", stamp(t), tail)
}
pub fn inc_name(s: i64, e: i64, tail: &str) -> String {
    format!("duplicity-inc.{}.to.{}.{}", stamp(s), stamp(e), tail)
}
pub fn fullsig_name(t: i64, tail: &str) -> String {
    format!("duplicity-full-signatures.{}.{}", stamp(t), tail)
}
pub fn newsig_name(s: i64, e: i64, tail: &str) -> String {
    format!("duplicity-new-signatures.{}.to.{}.{}", stamp(s), stamp(e), tail)
}
pub fn span_name(full: bool, s: i64, e: i64, tail: &str) -> String {
    if full { full_name(e, tail) } else { inc_name(s, e, tail) }
}
pub fn sig_name(full: bool, s: i64, e: i64, tail: &str) -> String {
    if full { fullsig_name(e, tail) } else { newsig_name(s, e, tail) }
}

impl Repo {
    /// Takes a backup of `tree` at `time`, adding its files in duplicity's order: volumes, signatures, manifest.
    pub fn backup(&mut self, full: bool, time: i64, tree: Tree, volumes: usize, style: &SigStyle) {
        let full = full || self.snaps.is_empty();
        let (start, prev, chain) = if full {
            (time, None, self.snaps.last().map_or(0, |s| s.chain + 1))
        } else {
            let l = self.snaps.last().unwrap();
            (l.end, Some(l.tree.clone()), l.chain)
        };
        let recs = diff(prev.as_ref(), &tree);
        let tar = sigtar(&recs, style.dialect);
        let (sig, sfx) = match style.gz {
            Some(l) => (gz(&tar, l), "sigtar.gz"),
            None => (tar, "sigtar"),
        };
        let n = self.snaps.len();
        let man = Man {
            host: format!("host{}", n), dir: format!("/data {}", n).into_bytes(),
            vols: (1..=volumes).map(|v| Vol {
                start: format!("p{} {}", n, v).into_bytes(), sblock: None, end: format!("p{} {}z", n, v).into_bytes(), eblock: Some(v),
                hash_type: "SHA1".into(), hash: vec![n as u8, v as u8, 0xfe],
            }).collect(),
        };
        let snap = Snap {
            full, start, end: time, tree, man_name: span_name(full, start, time, "manifest"), sig_name: sig_name(full, start, time, sfx),
            vol_names: (1..=volumes).map(|v| span_name(full, start, time, &format!("vol{}.difftar.gz", v))).collect(), man, chain,
        };
        for v in &snap.vol_names {
            self.files.insert(v.clone(), Arc::new(b"volume".to_vec()));
            self.order.push(v.clone());
        }
        self.files.insert(snap.sig_name.clone(), Arc::new(sig));
        self.order.push(snap.sig_name.clone());
        self.files.insert(snap.man_name.clone(), Arc::new(snap.man.bytes()));
        self.order.push(snap.man_name.clone());
        self.snaps.push(snap);
    }
    pub fn names(&self) -> Vec<String> {
        self.files.keys().cloned().collect()
    }
}

// ---------------------------------------------------------------- backend

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    List,
    Open(String),
    Read(String),
}

#[derive(Default)]
pub struct Env {
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    pub listing: Vec<String>,
    /// number of backend calls so far, and the ones that fail, with the error kind
    pub calls: u64,
    pub fail_at: Vec<(u64, io::ErrorKind)>,
    pub fired: u64,
    /// the first read of this file at this offset fails
    pub fail_offset: Option<(String, usize, io::ErrorKind)>,
    /// reads never return more than this
    pub chunk: usize,
    /// reads of this file never cross these offsets
    pub cuts: BTreeMap<String, Vec<usize>>,
    pub log: Vec<Op>,
    pub opens: BTreeMap<String, u32>,
    pub bytes_read: u64,
}

/// An in-memory backend; the driver keeps a handle to its environment.
#[derive(Clone)]
pub struct Mem(pub Rc<RefCell<Env>>);

impl Mem {
    pub fn new(files: &BTreeMap<String, Arc<Vec<u8>>>) -> Mem {
        Mem(Rc::new(RefCell::new(Env { files: files.clone(), listing: files.keys().cloned().collect(), chunk: usize::MAX, ..Default::default() })))
    }
    fn call(&self, op: Op) -> io::Result<()> {
        let mut e = self.0.borrow_mut();
        let n = e.calls;
        e.calls += 1;
        if let Some((_, k)) = e.fail_at.iter().find(|f| f.0 == n).cloned() {
            e.fired += 1;
            e.log.push(op);
            return Err(io::Error::new(k, "injected failure"));
        }
        e.log.push(op);
        Ok(())
    }
}

pub struct Stream {
    mem: Mem,
    name: String,
    data: Arc<Vec<u8>>,
    pos: usize,
}

impl Backend for Mem {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Vec<String>> {
        self.call(Op::List)?;
        Ok(self.0.borrow().listing.clone())
    }
    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let name = name.to_str().unwrap_or("?").to_string();
        self.call(Op::Open(name.clone()))?;
        let data = self.0.borrow().files.get(&name).cloned();
        match data {
            Some(data) => {
                *self.0.borrow_mut().opens.entry(name.clone()).or_insert(0) += 1;
                Ok(Stream { mem: self.clone(), name, data, pos: 0 })
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.mem.call(Op::Read(self.name.clone()))?;
        let mut e = self.mem.0.borrow_mut();
        if let Some((f, off, k)) = e.fail_offset.clone() {
            if f == self.name && off == self.pos {
                e.fail_offset = None;
                e.fired += 1;
                return Err(io::Error::new(k, "injected failure"));
            }
        }
        let mut n = buf.len().min(self.data.len() - self.pos).min(e.chunk);
        if let Some(c) = e.cuts.get(&self.name) {
            if let Some(next) = c.iter().find(|c| **c > self.pos) {
                n = n.min(next - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        e.bytes_read += n as u64;
        Ok(n)
    }
}

/// All snapshots of an opened backup, as (time, entries or error text).
pub fn read_all<B: Backend>(b: &ruplicity::Backup<B>) -> Result<Vec<(i64, Result<Vec<Seen>, String>)>, String> {
    let mut v = vec![];
    for s in b.snapshots().map_err(|e| format!("snapshots(): {}", e))? {
        let r = match s.entries() {
            Ok(e) => Ok(e.as_signature().map(|e| seen(&e)).collect()),
            Err(e) => Err(e.to_string()),
        };
        v.push((s.time().sec, r));
    }
    Ok(v)
}

/// Base instant of the scenarios (2015-06-17T18:25:45Z); the n-th backup is taken n steps later.
pub const T0: i64 = 1_434_565_545;
pub fn at(n: i64) -> i64 {
    T0 + n * 86_400 * 3 + n * 61
}
