//! C27: from a path in a snapshot to the files that hold it.
use crate::engine::*;
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::{Backend, Backup};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::sync::Arc;

/// A block of a path: (path, number, of how many).
type Block = (Comps, usize, usize);

fn volume_bytes(v: &[Block]) -> Vec<u8> {
    v.iter().map(|(p, n, of)| format!("{}:{}/{}\n", hex(&join(p)), n, of)).collect::<String>().into_bytes()
}
fn volume_blocks(b: &[u8]) -> Vec<(String, usize, usize)> {
    String::from_utf8_lossy(b).lines().map(|l| {
        let (p, r) = l.split_once(':').unwrap_or(("?", "0/0"));
        let (n, of) = r.split_once('/').unwrap_or(("0", "0"));
        (p.to_string(), n.parse().unwrap_or(0), of.parse().unwrap_or(0))
    }).collect()
}
/// Stands for the hash of a volume.
fn digest(b: &[u8]) -> Vec<u8> {
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3));
    [&h.to_be_bytes()[..], &(b.len() as u64).to_be_bytes()[..], &[0, 0xff, 0x10, 9]].concat()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Form {
    /// blocks a volume holds
    cap: usize,
    /// blocks of the files, in turn
    sizes: [usize; 3],
    suffix: &'static str,
}

/// Packs what changed into volumes, as duplicity does: a file that does not fit goes on in the next volume.
fn pack(recs: &[Rec], f: &Form) -> Vec<Vec<Block>> {
    let mut vols: Vec<Vec<Block>> = vec![vec![]];
    for (i, r) in recs.iter().enumerate() {
        let file = r.node.as_ref().map_or(false, |n| n.kind == Kind::File);
        let of = if file { f.sizes[i % 3] } else { 1 };
        for n in 0..of {
            if vols.last().unwrap().len() >= f.cap {
                vols.push(vec![]);
            }
            vols.last_mut().unwrap().push((r.path.clone(), n, of));
        }
    }
    vols
}
fn spelled(p: &Comps) -> Vec<u8> {
    if p.is_empty() { b".".to_vec() } else { join(p) }
}

/// What each snapshot recorded, and in which of its volumes.
struct Written {
    repo: Repo,
    vols: Vec<Vec<Vec<Block>>>,
}
fn write(trees: &[Tree], fulls: &[bool], f: &Form) -> Written {
    let mut w = Written { repo: Repo::default(), vols: vec![] };
    for (i, t) in trees.iter().enumerate() {
        let old = if fulls[i] { None } else { Some(&trees[i - 1]) };
        let vols = pack(&diff(old, t), f);
        w.repo.backup(fulls[i], at(i as i64), t.clone(), 0, &SigStyle { dialect: [Dialect::Gnu, Dialect::Pax][i % 2], gz: if i % 2 == 0 { Some(1) } else { None } });
        let s = w.repo.snaps.last_mut().unwrap();
        for (k, v) in vols.iter().enumerate() {
            let name = span_name(s.full, s.start, s.end, &format!("vol{}.difftar{}", k + 1, f.suffix));
            let (first, last) = (v.first().unwrap(), v.last().unwrap());
            let bytes = volume_bytes(v);
            s.man.vols.push(Vol {
                start: spelled(&first.0), sblock: if first.1 > 0 { Some(first.1) } else { None },
                end: spelled(&last.0), eblock: if last.1 + 1 < last.2 { Some(last.1) } else { None },
                hash_type: "SHA1".into(), hash: digest(&bytes),
            });
            w.repo.files.insert(name.clone(), Arc::new(bytes));
            s.vol_names.push(name);
        }
        w.repo.files.insert(s.man_name.clone(), Arc::new(s.man.bytes()));
        w.vols.push(vols);
    }
    w
}

/// For each entry of each snapshot: the volumes named for it, in the snapshots of its chain up to that one, hold exactly
/// what they recorded of it.
fn find_all<B: Backend>(b: &Backup<B>, files: &B, w: &Written, gone: &BTreeSet<String>) -> R {
    let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
    ensure_eq!(snaps.len(), w.repo.snaps.len(), "snapshots");
    let mut first = 0; // of the chain
    for (i, s) in snaps.iter().enumerate() {
        let m = &w.repo.snaps[i];
        if m.full {
            first = i;
        }
        let e = s.entries().map_err(|e| format!("snapshot {}: {}", i, e))?;
        check_listing(e.as_signature(), &m.tree, &format!("snapshot {}", i))?;
        for x in e.as_signature() {
            let mut told: Vec<Block> = vec![];
            for j in first..=i {
                let path = x.path_bytes();
                let set = snaps[j].as_backup_set();
                let man = snaps[j].manifest().map_err(|e| format!("manifest of snapshot {}: {}", j, e))?;
                let what = || format!("path '{}' of snapshot {}, in the volumes of snapshot {}", String::from_utf8_lossy(path), i, j);
                ensure_eq!(man.last_volume_index(), w.vols[j].len(), "volumes in the manifest of snapshot {}", j);
                for n in man.first_volume_of_path(path).into_iter().chain(man.last_volume_of_path(path)) {
                    let v = man.volume(n).ok_or_else(|| format!("{}: no volume {} in the manifest", what(), n))?;
                    check_volume(v, &w.repo.snaps[j].man.vols[n - 1]).map_err(|e| format!("{}: volume {}: {}", what(), n, e))?;
                }
                let mine: Vec<(usize, Block)> = w.vols[j].iter().enumerate().flat_map(|(k, v)| v.iter().filter(|b| join(&b.0) == path).map(move |b| (k + 1, b.clone()))).collect();
                let (lo, hi) = match (man.first_volume_of_path(path), man.last_volume_of_path(path)) {
                    (Some(lo), Some(hi)) => (lo, hi),
                    (None, None) if mine.is_empty() => continue,
                    (lo, hi) => return Err(format!("{}: it is said to be in the volumes from {:?} to {:?}, it is in {:?}", what(), lo, hi, mine.iter().map(|b| b.0).collect::<Vec<_>>())),
                };
                if let (Some(a), Some(z)) = (mine.first(), mine.last()) {
                    ensure_eq!((lo, hi), (a.0, z.0), "first and last volume of {}", what());
                }
                let mut read = vec![];
                for v in lo..=hi {
                    let name = match set.volume_path(v) {
                        Some(n) if !gone.contains(n) => n,
                        // a file that is not listed
                        None if gone.contains(&w.repo.snaps[j].vol_names[v - 1]) => continue,
                        n => return Err(format!("{}: volume {} is the file {:?}, not {:?}", what(), v, n, w.repo.snaps[j].vol_names[v - 1])),
                    };
                    let mut data = vec![];
                    files.open_file(name.as_ref()).and_then(|mut f| f.read_to_end(&mut data)).map_err(|e| format!("{}: '{}' cannot be read: {}", what(), name, e))?;
                    let vol = man.volume(v).ok_or_else(|| format!("{}: no volume {} in the manifest", what(), v))?;
                    ensure!(vol.hash() == &digest(&data)[..], "{}: the hash of volume {} is not that of '{}'", what(), v, name);
                    read.extend(volume_blocks(&data).into_iter().filter(|b| b.0 == hex(path)));
                }
                let want: Vec<(String, usize, usize)> = mine.iter().filter(|b| !gone.contains(&w.repo.snaps[j].vol_names[b.0 - 1])).map(|(_, b)| (hex(path), b.1, b.2)).collect();
                ensure_eq!(read, want, "blocks of {}", what());
                told.extend(mine.into_iter().map(|b| b.1));
            }
            ensure!(!told.is_empty(), "the path '{}' is in no volume of snapshots {} to {}", String::from_utf8_lossy(x.path_bytes()), first, i);
        }
    }
    Ok(())
}

fn explain(trees: &[Tree], f: &Form) -> String {
    format!("{:?}: {}", f, trees.iter().map(|t| t.iter().map(|(p, n)| format!("{}@{}", String::from_utf8_lossy(&spelled(p)), n.mtime)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | "))
}

/// The next tree: each path stays, is changed, or removed or created.
fn next_tree(ch: &mut Ch, old: &Tree, pool: &[Comps], r: u64) -> Tree {
    let mut t = old.clone();
    t.insert(vec![], Node::new(Kind::Dir, r));
    for (i, p) in pool.iter().enumerate() {
        let kind = if i % 4 == 3 { Kind::Sym } else { Kind::File };
        match ch.pick(3) {
            0 => {}
            1 => drop(t.insert(p.clone(), Node::new(kind, 10 * r + i as u64))),
            _ if t.contains_key(p) => drop(t.remove(p)),
            _ => drop(t.insert(p.clone(), Node::new(kind, 10 * r + i as u64))),
        }
    }
    t
}

pub fn run(c: &mut Ctx) {
    c.rule = "a file is split between volumes, or recorded by more than one snapshot of its chain".into();
    c.assumptions = vec!["volumes hold what changed in path order, a file that does not fit goes on in the next one, as duplicity packs them; a path that did not change in a snapshot may be in the range of one of its volumes, but not in the volume".into()];
    let pool: Vec<Comps> = ["a", "a/b c", "a.b", "é\\"].iter().map(|p| comps(p)).collect();
    let mut full = Tree::new();
    full.insert(vec![], Node::new(Kind::Dir, 0));
    for (i, p) in pool.iter().enumerate().take(3) {
        full.insert(p.clone(), Node::new(Kind::File, i as u64));
    }
    let forms: Vec<Form> = {
        let mut v = vec![];
        for cap in [1, 2, 3, 100] {
            for sizes in [[1, 1, 1], [3, 1, 2], [1, 4, 3]] {
                for suffix in c.by_tier(vec!["", ".gpg"], vec!["", ".gz", ".gpg"]) {
                    v.push(Form { cap, sizes, suffix });
                }
            }
        }
        v
    };
    let kinds: Vec<Vec<bool>> = vec![vec![true, false, false], vec![true, true, false], vec![true, false, true]];
    let nkinds = c.by_tier(1usize, 3);
    c.explore("histories", &format!("two backups after a first one, each of {} paths staying, changing, or coming and going; files of one to four blocks in volumes of one to three or all blocks ({} forms)", pool.len(), forms.len()), Opt::default(), &|ch| {
        let f = *ch.of(&forms);
        let fulls = ch.of(&kinds[..nkinds]);
        let mut trees = vec![full.clone()];
        for r in 1..3 {
            let t = next_tree(ch, &trees[r - 1], &pool, r as u64);
            trees.push(t);
        }
        ch.state(&(f, fulls, &trees));
        ch.outcome(&(&trees, fulls));
        let w = write(&trees, fulls, &f);
        if w.vols.iter().any(|v| v.len() > 1) {
            ch.nontrivial();
        }
        ch.note(|| explain(&trees, &f));
        let mem = Mem::new(&w.repo.files);
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        find_all(&b, &mem, &w, &BTreeSet::new()).map_err(|e| format!("{}\n  history: {}", e, explain(&trees, &f)))
    });
    // many volumes
    let sizes: Vec<usize> = c.by_tier(vec![8, 9, 10, 11, 12, 31, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 1000, 1025, 10_001, 65_537], (1..=130).chain([255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4097, 9999, 10_000, 10_001, 65_535, 65_536, 65_537]).collect());
    c.explore("many_volumes", &format!("{:?} volumes of a full backup and of an increment: one file over all, a file each, or files over two to five (up to 1025); listed in three orders", sizes), Opt::default(), &|ch| {
        let n = *ch.of(&sizes);
        let how = ch.pick(3);
        let order = ch.pick(3);
        if how > 0 && n > 1025 {
            return Ok(());
        }
        let per = [n.max(1), 1, 3][how];
        let mut t = Tree::new();
        let mut u = Tree::new();
        for i in 0..(n / per).max(1) {
            t.insert(comps(&format!("f{:05}", i)), Node::new(Kind::File, 1));
            u.insert(comps(&format!("f{:05}", i)), Node::new(Kind::File, 2));
        }
        let f = Form { cap: 1, sizes: if how == 2 { [2, 5, 2] } else { [per; 3] }, suffix: ".gz" };
        let w = write(&[t, u], &[true, false], &f);
        ch.state(&(n, how, order));
        ch.outcome(&(n, how, order));
        ch.nontrivial();
        ch.note(|| format!("{} volumes, {} blocks a file, order {}", n, per, order));
        let mem = Mem::new(&w.repo.files);
        {
            let mut e = mem.0.borrow_mut();
            match order {
                0 => {}
                1 => e.listing.reverse(),
                _ => {
                    let l = e.listing.len();
                    let k = (1..).map(|k| 7 * k + 3).find(|k| gcd(*k, l) == 1).unwrap();
                    e.listing = (0..l).map(|i| e.listing[i * k % l].clone()).collect();
                }
            }
        }
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        find_all(&b, &mem, &w, &BTreeSet::new())
    });
    // some volumes gone
    let base = {
        let mut t = full.clone();
        t.insert(vec![], Node::new(Kind::Dir, 5));
        t.insert(comps("a"), Node::new(Kind::File, 50));
        t.insert(comps("z"), Node::new(Kind::File, 51));
        vec![full.clone(), t]
    };
    c.explore("missing", &format!("every set of volumes of two snapshots missing ({} forms)", forms.len()), Opt::default(), &|ch| {
        let f = *ch.of(&forms);
        let w = write(&base, &[true, false], &f);
        let all: Vec<String> = w.repo.snaps.iter().flat_map(|s| s.vol_names.clone()).collect();
        if all.len() > 11 {
            return Ok(());
        }
        let gone: BTreeSet<String> = all.iter().filter(|_| ch.flag()).cloned().collect();
        ch.state(&(f, &gone));
        ch.outcome(&(f.cap, gone.len()));
        ch.faults(gone.len() as u64);
        ch.nontrivial();
        ch.note(|| format!("{:?} without {:?}", f, gone));
        let left: BTreeMap<String, Arc<Vec<u8>>> = w.repo.files.iter().filter(|(n, _)| !gone.contains(*n)).map(|(n, d)| (n.clone(), d.clone())).collect();
        let mem = Mem::new(&left);
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        find_all(&b, &mem, &w, &gone).map_err(|e| format!("{}\n  without {:?}", e, gone))
    });
    // on disk
    let root = std::env::temp_dir().join(format!("mc-c27-{}", std::process::id()));
    std::fs::create_dir(&root).expect("scratch root");
    c.explore("on_disk", "one history in every form in a directory, read through the local backend", Opt::default(), &|ch| {
        let k = ch.pick(forms.len());
        let w = write(&base, &[true, ch.flag()], &forms[k]);
        ch.state(&(k, w.repo.snaps[1].full));
        ch.outcome(&(k, w.repo.snaps[1].full));
        ch.nontrivial();
        ch.note(|| explain(&base, &forms[k]));
        let d = root.join(format!("{}-{}", k, w.repo.snaps[1].full));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).map_err(|e| format!("scratch directory: {}", e))?;
        for (n, x) in &w.repo.files {
            std::fs::write(d.join(n), &**x).map_err(|e| format!("scratch file: {}", e))?;
        }
        let b = Backup::new(LocalBackend::new(&d)).map_err(|e| e.to_string())?;
        find_all(&b, &LocalBackend::new(&d), &w, &BTreeSet::new())
    });
    let _ = std::fs::remove_dir_all(&root);
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
