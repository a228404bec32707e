//! C01: which names are taken for backup files, and what they mean.
use super::coll;
use crate::engine::*;
use crate::model::{self, stamp};
use crate::world::*;
use ruplicity::collections::Collections;

/// Lists `name` next to the full backup (file and signature) that it would continue, and compares everything.
fn judge(ch: &mut Ch, name: &str) -> R {
    let p = model::parse_name(name);
    ch.state(&p);
    let mut names: Vec<String> = vec![];
    match &p {
        Some(p) if !p.full => {
            if p.start >= p.end {
                // not a backup duplicity can make; it only has to be survived
                Collections::from_filenames(vec![name.to_string()]);
                return Ok(());
            }
            names.push(full_name(p.start, "vol7.difftar"));
            names.push(fullsig_name(p.start, "sigtar"));
        }
        Some(_) => {}
        None => {
            for i in 0..2 {
                names.push(full_name(at(i), "vol7.difftar"));
                names.push(fullsig_name(at(i), "sigtar"));
            }
        }
    }
    // a partner of another time that must not be affected
    names.push(full_name(at(40), "manifest"));
    names.push(name.to_string());
    names.dedup();
    let c = Collections::from_filenames(names.clone());
    ch.note(|| format!("{:?} -> {:?}", name, p));
    if p.is_some() {
        ch.nontrivial();
    }
    ch.outcome(&coll::describe(&c, &[0, 1, 2]));
    coll::check(&c, &names).map_err(|e| format!("name {:?}: {}", name, e))?;
    if p.is_none() {
        let mut without = names.clone();
        without.pop();
        ensure_eq!(coll::describe(&c, &coll::probes(&names)), coll::describe(&Collections::from_filenames(without), &coll::probes(&names)), "name {:?} is not a backup file but changes the collection", name);
    }
    Ok(())
}

fn case(s: &str, how: usize) -> String {
    match how {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "the name is one the grammar accepts".into();
    c.assumptions = vec![
        "suffixes after .difftar/.manifest/.sigtar are those duplicity or a user's tool writes (.gz .gpg .g .z .part .bak and combinations); an incremental with start >= end only has to be survived".into(),
        "a snapshot exists as soon as one of its files (volume, manifest or signature) is listed".into(),
    ];
    let stamps: Vec<String> = [
        stamp(at(0)), stamp(at(1)), "20000229T000000Z".into(), "19700101T000000Z".into(), "19691231T235959Z".into(), "20371231T235959Z".into(),
        "20400101T000000Z".into(), "20150231T000000Z".into(), "20151301T000000Z".into(), "20150617T240000Z".into(), "20150617T186000Z".into(),
        "20150617T182560Z".into(), "2015617T182545Z".into(), "20150617T182545".into(), "20150617T182545z0".into(), "20150617182545Z".into(), "20150617T182545+".into(), "".into(),
        "2015-06-17T18:25:45Z".into(), "20150617T182545Z ".into(), "19000229T000000Z".into(), "18991231T235959Z".into(), "20150617T18254 Z".into(),
    ].to_vec();
    let nst = stamps.len();
    let prefixes = ["duplicity-full.", "duplicity-inc.", "duplicity-full-signatures.", "duplicity-new-signatures.", "duplicity-full", "duplicity-new.", "duplicity_full.", "xduplicity-full.", " duplicity-inc.", "duplicity-inc-signatures.", "", "full."];
    let kinds = [".vol1.difftar", ".vol0.difftar", ".vol12.difftar", ".vol007.difftar", ".vol4294967297.difftar", ".vol99999999999999999999.difftar", ".vol.difftar", ".vol-1.difftar", ".vol1a.difftar", "vol1.difftar", ".vol1.diff", ".manifest", ".manifests", ".man", ".sigtar", ".sigtars", ".difftar", ".volx.vol1.difftar", ""];
    let suffixes = ["", ".gz", ".gpg", ".g", ".z", ".part", ".part.gz", ".part.gpg", ".bak", ".gz.bak", ".gpg.gz", "gz", ".", "x", ".GZ", ".partial", ".zz", ".gg"];
    let quick = !c.thorough();
    let (stamps, prefixes, kinds, suffixes) = (&stamps, &prefixes[..], &kinds[..], &suffixes[..]);
    c.explore("full_names", &format!("{} prefixes x {} timestamps x {} kinds x {} suffixes x {} case variants", prefixes.len(), nst, kinds.len(), suffixes.len(), if quick { 1 } else { 4 }), Opt::default(), &|ch| {
        let p = *ch.of(prefixes);
        let t = ch.of(stamps).clone();
        let k = *ch.of(kinds);
        let s = *ch.of(suffixes);
        let how = if quick { (t.len() + k.len() + s.len()) % 4 } else { ch.pick(4) };
        judge(ch, &case(&format!("{}{}{}{}", p, t, k, s), how))
    });
    let seps = [".to.", "..", ".TO.", ".to", "to.", ".t0.", ".to..", ""];
    c.explore("inc_names", "3 prefixes x pairs of timestamps x separators x kinds x suffixes", Opt::default(), &|ch| {
        let p = *ch.of(&["duplicity-inc.", "duplicity-new-signatures.", "duplicity-full."]);
        let sep = *ch.of(&seps);
        let a = ch.pick(nst);
        let b = ch.pick(nst);
        // off the diagonal of interest (both odd, or both odd separators) only one kind is tried
        let plain = sep == ".to." && (a < 2 || b < 2);
        let (k, s) = if plain || (!quick && sep == ".to.") {
            let k = *ch.of(&[".vol1.difftar", ".vol30.difftar", ".manifest", ".sigtar", ".vol.difftar", ""]);
            (k, if quick && !(a < 2 && b < 2) { suffixes[ch.pick(2) * 5] } else { *ch.of(suffixes) })
        } else {
            (*ch.of(&[".vol1.difftar.gz", ".sigtar.gz"]), "")
        };
        judge(ch, &format!("{}{}{}{}{}{}", p, stamps[a], sep, stamps[b], k, s))
    });
    // volume numbers of every length and around the limits of every integer type
    let mut numbers: Vec<String> = vec![];
    for d in 1..=c.by_tier(24, 60) as usize {
        for first in ["1", "4", "9", "0"] {
            numbers.push(format!("{}{}", first, "0".repeat(d - 1)));
            numbers.push(format!("{}{}", first, "9".repeat(d - 1)));
            numbers.push(format!("{}{}3", first, "0".repeat(d - 1)));
        }
    }
    for bits in [7u32, 8, 15, 16, 31, 32, 53, 63, 64] {
        for k in -2..=2i128 {
            numbers.push(format!("{}", (1i128 << bits) + k));
        }
    }
    for odd in ["+1", "-1", "1_0", "1e3", "0x1", "1 ", " 1", "\u{0661}", "\u{ff11}", "1.0", "1.vol2", "1.difftar.vol2"] {
        numbers.push(odd.to_string());
    }
    numbers.sort();
    numbers.dedup();
    let numbers = &numbers;
    c.explore("volume_numbers", &format!("{} volume numbers (every length up to {} digits, the limits of every integer type, padded, odd digits) x full and incremental x 4 suffixes", numbers.len(), c.by_tier(24, 60)), Opt::default(), &|ch| {
        let n = ch.of(numbers).clone();
        let part = format!("vol{}.difftar{}", n, ch.of(&["", ".gz", ".gpg", ".part"]));
        let name = if ch.flag() { full_name(at(0), &part) } else { inc_name(at(0), at(1), &part) };
        judge(ch, &name)
    });
    let canon: Vec<String> = [
        full_name(at(0), "vol1.difftar.gz"), full_name(at(0), "vol23.difftar.gpg"), full_name(at(0), "manifest"), full_name(at(0), "manifest.part"),
        inc_name(at(0), at(1), "vol1.difftar.gz"), inc_name(at(0), at(1), "manifest"), inc_name(at(0), at(1), "manifest.gpg"), inc_name(at(0), at(1), "manifest.part"),
        fullsig_name(at(0), "sigtar.gz"), fullsig_name(at(0), "sigtar.part"), newsig_name(at(0), at(1), "sigtar.gz"), newsig_name(at(0), at(1), "sigtar.gpg"),
    ].to_vec();
    let chars: Vec<char> = if quick { "0159.tzA-\u{e9} ".chars().collect() } else { "0123456789.tzvoamAZ-/_ \\\u{e9}\u{0}\n".chars().collect() };
    let (canon, chars) = (&canon, &chars);
    c.explore("one_edit", "every deletion, replacement, insertion and adjacent swap at every position of 12 canonical names", Opt::default(), &|ch| {
        let n: Vec<char> = ch.of(canon).chars().collect();
        let pos = ch.pick(n.len() + 1);
        let mut m = n.clone();
        match ch.pick(4) {
            0 => {
                if pos < m.len() {
                    m.remove(pos);
                }
            }
            1 => {
                if pos + 1 < m.len() {
                    m.swap(pos, pos + 1);
                }
            }
            2 => m.insert(pos, *ch.of(chars)),
            _ => {
                if pos < m.len() {
                    m[pos] = *ch.of(chars)
                }
            }
        }
        judge(ch, &m.into_iter().collect::<String>())
    });
    let bytes_pos = if quick { 7 } else { 1 };
    c.explore("non_utf8", "a byte that is not UTF-8 inserted at positions of canonical names", Opt::default(), &|ch| {
        use std::os::unix::ffi::OsStringExt;
        let n = ch.of(canon).clone().into_bytes();
        let pos = ch.pick(n.len() / bytes_pos + 1) * bytes_pos;
        let mut m = n;
        let pos = pos.min(m.len());
        m.insert(pos, *ch.of(&[0xff, 0xc3, 0x80]));
        ch.state(&m);
        let name = std::ffi::OsString::from_vec(m);
        let c = Collections::from_filenames(vec![name.clone()]);
        ch.outcome(&c.num_snapshots());
        // nothing of duplicity's is spelled with such bytes, except after the last suffix
        ensure!(c.num_snapshots() == 0 && c.backup_chains().count() == 0 && c.signature_chains().count() == 0, "{:?} was taken for a backup file", name);
        Ok(())
    });
}
