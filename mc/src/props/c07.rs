//! C07: size bounds always contain the true size.
use super::c05::chain_of;
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use std::collections::BTreeMap;
use std::sync::Arc;

/// The size bounds of the entries of an archive, in order.
pub fn hints(coll: &Collections, name: &str, tar: Vec<u8>) -> Result<Vec<Option<(usize, usize)>>, String> {
    let mut files = BTreeMap::new();
    files.insert(name.to_string(), Arc::new(tar));
    let chain = Chain::from_sigchain(coll.signature_chains().next().unwrap(), &Mem::new(&files)).map_err(|e| format!("reading the archive failed: {}", e))?;
    let s = chain.snapshots().next().ok_or("no snapshot")?;
    Ok(s.files().map(|e| e.size_hint()).collect())
}

fn rec(len: u64, block: u32, strong: u32) -> Rec {
    Rec { diff: Diff::Signature, path: comps("f"), node: Some(Node { len, ..Node::new(Kind::File, 0) }), block_len: block, strong }
}

/// A signature member with arbitrary data.
fn raw(data: &[u8], size_in: usize) -> Vec<u8> {
    let n = Node::new(Kind::File, 0);
    let mut out = vec![];
    let mut size = data.len() as u64;
    if size_in == 1 {
        // the size is in a pax record, as for huge files
        let r = pax_record("size", size.to_string().as_bytes());
        out.extend(header(b"././@PaxHeader", b'x', None, r.len() as u64, true, b""));
        out.extend(r);
        pad(&mut out);
        size = 0;
    }
    let mut h = header(b"signature/f", b'0', Some(&n), size, size_in == 1, b"");
    if size_in == 2 {
        // base-256 size
        for b in &mut h[124..136] {
            *b = 0;
        }
        h[124] = 0x80;
        h[128..136].copy_from_slice(&size.to_be_bytes());
        checksum(&mut h);
    }
    out.extend(h);
    out.extend_from_slice(data);
    pad(&mut out);
    // a following member must still be found
    write_member(&mut out, &Rec { diff: Diff::Snapshot, path: comps("g"), node: Some(Node::new(Kind::Dir, 0)), block_len: 0, strong: 0 }, Dialect::Gnu);
    out.extend_from_slice(&[0; 1024]);
    out
}

/// An archive with virtual runs of data that nobody looks at, for members larger than memory.
struct Sparse(Arc<Vec<(Vec<u8>, u64)>>);
struct SparseStream {
    parts: Arc<Vec<(Vec<u8>, u64)>>,
    part: usize,
    pos: u64,
}
impl ruplicity::backend::Backend for Sparse {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = SparseStream;
    fn file_names(&self) -> std::io::Result<Vec<String>> {
        Ok(vec![])
    }
    fn open_file(&self, _: &std::path::Path) -> std::io::Result<SparseStream> {
        Ok(SparseStream { parts: self.0.clone(), part: 0, pos: 0 })
    }
}
impl std::io::Read for SparseStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        while let Some((head, hole)) = self.parts.get(self.part) {
            let pos = self.pos as usize;
            if pos < head.len() {
                let n = buf.len().min(head.len() - pos);
                buf[..n].copy_from_slice(&head[pos..pos + n]);
                self.pos += n as u64;
                return Ok(n);
            }
            let left = head.len() as u64 + hole - self.pos;
            if left > 0 {
                // whatever the buffer holds will do
                let n = left.min(buf.len() as u64);
                self.pos += n;
                return Ok(n as usize);
            }
            self.part += 1;
            self.pos = 0;
        }
        Ok(0)
    }
}

/// One member whose data is `head` and then whatever, up to `size` bytes.
fn sparse_member(path: &[u8], kind: Kind, head: &[u8], size: u64, size_in: usize) -> Vec<(Vec<u8>, u64)> {
    let n = Node::new(kind, 0);
    let mut out = vec![];
    let mut field = size;
    if size_in == 1 {
        let r = pax_record("size", size.to_string().as_bytes());
        out.extend(header(b"././@PaxHeader", b'x', None, r.len() as u64, true, b""));
        out.extend(r);
        pad(&mut out);
        field = 0;
    }
    out.extend(header(path, kind.tar(), Some(&n), field, size_in == 1, b""));
    out.extend_from_slice(head);
    vec![(out, (size + 511) / 512 * 512 - head.len() as u64)]
}

fn check_file(got: &[Option<(usize, usize)>], len: u64, block: u32, what: &str) -> R {
    ensure!(got.len() == 1, "{}: {} entries", what, got.len());
    let (lo, hi) = got[0].ok_or_else(|| format!("{}: no size bounds", what))?;
    let len = len as usize;
    ensure!(lo <= len && len <= hi, "{}: the bounds {}..={} do not contain {}", what, lo, hi, len);
    ensure!(hi - lo < (block as usize).max(1), "{}: the bounds {}..={} are more than a block of {} apart", what, lo, hi, block);
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "the file has at least one block, or the signature is not a valid one".into();
    c.assumptions = vec!["signatures are librsync MD4 signatures (magic 0x72730136), the kind duplicity writes; other magic numbers are foreign".into()];
    let (coll, names) = chain_of(1, "sigtar");
    let name = &names[0];
    let max = c.by_tier(4200u64, 20_000);
    let blocks: Vec<u32> = c.by_tier(vec![1, 2, 3, 4, 7, 8, 16, 100, 255, 256, 512, 2048], vec![1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 100, 128, 255, 256, 257, 512, 2048]);
    let strong: Vec<u32> = c.by_tier(vec![1, 2, 8, 16, 32], vec![1, 2, 3, 4, 7, 8, 12, 15, 16, 17, 32]);
    let step = 1;
    c.explore("small_lengths", &format!("every length up to {} in steps of {} for each of {} block lengths and {} strong-sum lengths", max, step, blocks.len(), strong.len()), Opt::default(), &|ch| {
        let b = *ch.of(&blocks);
        let s = *ch.of(&strong);
        let len = step * ch.pick((max / step) as usize + 1) as u64;
        ch.state(&(b, s, len));
        if len > 0 {
            ch.nontrivial();
        }
        ch.note(|| format!("{} bytes, block {}, strong {}", len, b, s));
        let got = hints(&coll, name, sigtar(&[rec(len, b, s)], Dialect::Gnu))?;
        ch.outcome(&(len, got[0]));
        check_file(&got, len, b, &format!("file of {} bytes, block {}, strong {}", len, b, s))
    });
    // around block boundaries, with large blocks
    let big: Vec<u32> = vec![1, 2, 3, 511, 512, 513, 2048, 65_536, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX];
    let counts: Vec<u64> = c.by_tier(vec![0, 1, 2, 3, 100, 255, 256, 257, 1000, 65_535, 65_536], vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 100, 255, 256, 257, 1000, 65_535, 65_536]);
    let around = c.by_tier(3i64, 12);
    c.explore("block_boundaries", &format!("every length within {} bytes of n blocks for each of {} n, block lengths up to 4 GiB and strong-sum lengths", around, counts.len()), Opt::default(), &|ch| {
        let b = *ch.of(&big);
        let s = *ch.of(&strong);
        let n = *ch.of(&counts);
        let d = ch.pick(2 * around as usize + 1) as i64 - around;
        let len = n as i128 * b as i128 + d as i128;
        if len < 0 || (len as u128 / b as u128) > 70_000 {
            return Ok(());
        }
        let len = len as u64;
        ch.state(&(b, s, len));
        ch.nontrivial();
        ch.note(|| format!("{} bytes, block {}, strong {}", len, b, s));
        let got = hints(&coll, name, sigtar(&[rec(len, b, s)], Dialect::Gnu))?;
        ch.outcome(&(len, got[0]));
        check_file(&got, len, b, &format!("file of {} bytes, block {}, strong {}", len, b, s))
    });
    // many files in one archive, each with its own bounds
    c.explore("neighbours", "every sequence of three files of boundary lengths with different block lengths in one archive, in every dialect", Opt::default(), &|ch| {
        let mut recs = vec![];
        let mut want = vec![];
        for p in ["a", "b", "c"] {
            let b = *ch.of(&[16u32, 512]);
            let len = *ch.of(&[0u64, 1, 15, 16, 17, 511, 512, 513, 1024, 1025]);
            let mut r = rec(len, b, 8);
            r.path = comps(p);
            recs.push(r);
            want.push((len, b));
        }
        let d = *ch.of(&[Dialect::Gnu, Dialect::Pax, Dialect::Ustar]);
        ch.state(&want);
        ch.nontrivial();
        ch.note(|| format!("{:?}", want));
        let got = hints(&coll, name, sigtar(&recs, d))?;
        ch.outcome(&got);
        ensure_eq!(got.len(), 3, "number of entries");
        for (i, (len, b)) in want.iter().enumerate() {
            check_file(&got[i..i + 1], *len, *b, &format!("file {} of {:?}", i, want))?;
        }
        Ok(())
    });
    // whole entries
    c.explore("stored_whole", "every kind of entry stored whole, and regular files stored whole at every length up to the bound", Opt::default(), &|ch| {
        let kind = *ch.of(&KINDS);
        let len = if kind == Kind::File { ch.pick(1600) as u64 } else { 0 };
        let d = *ch.of(&[Dialect::Gnu, Dialect::Pax, Dialect::GnuNoSlash]);
        ch.state(&(kind, len));
        ch.nontrivial();
        let r = Rec { diff: Diff::Snapshot, path: comps("f"), node: Some(Node { len, ..Node::new(kind, 0) }), block_len: 0, strong: 0 };
        let got = hints(&coll, name, sigtar(&[r], d))?;
        ch.outcome(&(kind, &got));
        ensure_eq!(got, vec![Some((len as usize, len as usize))], "bounds of a {:?} of {} bytes stored whole", kind, len);
        Ok(())
    });
    // larger than what 32 bits can count
    let top = c.by_tier(37u32, 42);
    let huge: Vec<u64> = (31..=top).flat_map(|k| (0..5u64).map(move |d| (1u64 << k) + d - 2)).collect();
    c.explore("huge", &format!("files stored whole and signatures of every size within 2 bytes of every power of two from 2^31 to 2^{}, followed by another file", top), Opt::default(), &|ch| {
        let size = *ch.of(&huge);
        let sig = ch.flag();
        // up to 8 GiB the size fits the octal field
        let size_in = ch.pick(2);
        let block = if sig { *ch.of(&[1u32, 512, 1 << 16, 1 << 20]) } else { 0 };
        let strong = if sig { *ch.of(&[2u32, 8, 16]) } else { 0 };
        let per = 4 + strong as u64;
        let blocks = if sig { (size - 12) / per } else { 0 };
        let (size, head) = if sig { (12 + blocks * per, signature_bytes(0, block, strong)) } else { (size, vec![]) };
        ch.state(&(size, sig, size_in, block, strong));
        ch.nontrivial();
        ch.note(|| format!("{} of {} bytes, block {}, strong {}", if sig { "signature" } else { "file" }, size, block, strong));
        let mut parts = sparse_member(if sig { b"signature/f" } else { b"snapshot/f" }, Kind::File, &head, size, size_in);
        parts.extend(sparse_member(b"snapshot/g", Kind::File, b"abcde", 5, 0));
        parts.push((vec![0; 1024], 0));
        let chain = Chain::from_sigchain(coll.signature_chains().next().unwrap(), &Sparse(Arc::new(parts))).map_err(|e| format!("reading the archive failed: {}", e))?;
        let got: Vec<_> = chain.snapshots().next().ok_or("no snapshot")?.files().map(|e| (e.path_bytes().to_vec(), e.size_hint())).collect();
        ch.outcome(&got);
        let (lo, hi) = if sig { ((blocks - 1) * block as u64 + 1, blocks * block as u64) } else { (size, size) };
        ensure_eq!(got, vec![(b"f".to_vec(), Some((lo as usize, hi as usize))), (b"g".to_vec(), Some((5, 5)))], "bounds after a {} of {} bytes (block {}, strong {})", if sig { "signature" } else { "file stored whole" }, size, block, strong);
        Ok(())
    });
    // where the size of the member is recorded
    c.explore("size_fields", "signature sizes recorded as octal, in a pax record and as base-256, for all small lengths", Opt::default(), &|ch| {
        let how = ch.pick(3);
        let b = *ch.of(&[1u32, 16, 512]);
        let len = ch.pick(c_len(b)) as u64;
        ch.state(&(how, b, len));
        ch.nontrivial();
        let got = hints(&coll, name, raw(&signature_bytes(len, b, 8), how))?;
        ch.outcome(&(how, &got));
        ensure_eq!(got.len(), 2, "entries of an archive of two members (size encoding {})", how);
        check_file(&got[..1], len, b, &format!("file of {} bytes, block {}, size encoding {}", len, b, how))
    });
    // damaged or foreign signatures
    let m = c.by_tier(60usize, 200);
    c.explore("damaged_truncated", &format!("every prefix of signatures up to {} bytes", m), Opt::default(), &|ch| {
        let b = *ch.of(&[1u32, 512, u32::MAX]);
        let s = *ch.of(&[2u32, 8, 16]);
        let blocks = *ch.of(&[0u64, 1, 3, 12]);
        let full = signature_bytes(blocks * b as u64, b, s);
        let cut = ch.pick(m.min(full.len()));
        let how = ch.pick(2);
        ch.state(&(b, s, cut));
        ch.nontrivial();
        ch.note(|| format!("{} of {} bytes", cut, full.len()));
        let got = hints(&coll, name, raw(&full[..cut], how))?;
        ch.outcome(&(cut, &got));
        ensure_eq!(got.len(), 2, "entries");
        ensure_eq!(got[1], Some((0, 0)), "bounds of the following directory");
        match got[0] {
            None => Ok(()),
            // a cut after whole blocks is the signature of a shorter file
            Some((lo, hi)) => {
                ensure!(cut >= 12 && (cut - 12) % (4 + s as usize) == 0, "a signature cut to {} bytes (strong {}) has bounds {}..={}", cut, s, lo, hi);
                check_file(&got[..1], ((cut - 12) / (4 + s as usize)) as u64 * b as u64, b, "cut after whole blocks")
            }
        }
    });
    c.explore("foreign_magic", "every value of every byte of the magic number", Opt::default(), &|ch| {
        let mut d = signature_bytes(1000, 512, 8);
        let i = ch.pick(4);
        let v = ch.pick(256) as u8;
        if d[i] == v {
            return Ok(());
        }
        d[i] = v;
        ch.state(&(i, v));
        ch.nontrivial();
        ch.outcome(&(i, v));
        let got = hints(&coll, name, raw(&d, 0))?;
        ensure_eq!(got, vec![None, Some((0, 0))], "bounds with byte {} of the magic number changed to {:#x}", i, v);
        Ok(())
    });
    let edge: Vec<u32> = vec![0, 1, 2, 7, 8, 12, 0x7fff_fff3, 0x7fff_fffb, 0x7fff_fffc, 0x7fff_ffff, 0x8000_0000, 0xffff_fff3, 0xffff_fffb, 0xffff_fffc, 0xffff_fffd, 0xffff_ffff];
    c.explore("absurd_fields", "every pair of edge values of block length and strong-sum length with 0 to 40 bytes of blocks", Opt::default(), &|ch| {
        let b = *ch.of(&edge);
        let s = *ch.of(&edge);
        let n = ch.pick(41);
        let mut d = vec![0x72, 0x73, 0x01, 0x36];
        d.extend_from_slice(&b.to_be_bytes());
        d.extend_from_slice(&s.to_be_bytes());
        d.extend(vec![7u8; n]);
        ch.state(&(b, s, n));
        ch.nontrivial();
        ch.note(|| format!("block {}, strong {}, {} bytes", b, s, n));
        let got = hints(&coll, name, raw(&d, 0))?;
        ch.outcome(&(b, s, n, &got));
        ensure_eq!(got.len(), 2, "entries");
        let per = 4 + s as u64;
        match got[0] {
            None => ensure!(b == 0 || n as u64 % per != 0, "no bounds for a valid signature: block {}, strong {}, {} bytes of blocks", b, s, n),
            Some((lo, hi)) => {
                ensure!(n as u64 % per == 0 && (b > 0 || n == 0), "block {}, strong {}, {} bytes of blocks: not a signature, but it has bounds {}..={}", b, s, n, lo, hi);
                let blocks = n as u64 / per;
                let most = blocks as u128 * b as u128;
                let least = if blocks == 0 { 0 } else { most - b as u128 + 1 };
                ensure!(lo as u128 <= least && hi as u128 >= most && hi - lo < (b as usize).max(1), "block {}, strong {}, {} blocks: bounds {}..={}", b, s, blocks, lo, hi);
            }
        }
        Ok(())
    });
}

fn c_len(b: u32) -> usize {
    (b as usize * 3 + 3).min(1600)
}
