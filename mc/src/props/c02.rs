//! C02: which files belong to which snapshot.
use super::coll;
use crate::engine::*;
use crate::model;
use crate::world::*;
use ruplicity::collections::Collections;

fn subset(ch: &mut Ch, pool: &[String]) -> R {
    let names: Vec<String> = pool.iter().filter(|_| ch.flag()).cloned().collect();
    judge(ch, names)
}
fn judge(ch: &mut Ch, names: Vec<String>) -> R {
    let m = model::sets(&names);
    ch.state(&m);
    if m.len() > 1 {
        ch.nontrivial();
    }
    let c = Collections::from_filenames(&names);
    ch.note(|| shown(&names));
    ch.outcome(&coll::describe(&c, &[0, 1, 2, 3]));
    coll::check(&c, &names).map_err(|e| format!("{}\n  listing: {}", e.chars().take(4000).collect::<String>(), shown(&names)))
}

fn shown(names: &[String]) -> String {
    if names.len() <= 300 {
        format!("{:?}", names)
    } else {
        format!("{} names, {:?} ... {:?}", names.len(), &names[..3], &names[names.len() - 3..])
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "files of more than one snapshot are listed".into();
    c.assumptions = vec![
        "a snapshot exists as soon as one of its files (volume, manifest or signature) is listed".into(),
        "when several files claim the same role any of them may be reported, but a complete manifest is preferred to a .part one".into(),
    ];
    let (t0, t1, t2, t3) = (at(0), at(1), at(2), at(3));
    let mut shared: Vec<String> = vec![
        full_name(t0, "vol1.difftar.gz"), full_name(t0, "vol2.difftar.gz"), full_name(t0, "manifest"), fullsig_name(t0, "sigtar.gz"),
        inc_name(t0, t1, "vol1.difftar.gz"), inc_name(t0, t1, "vol3.difftar"), inc_name(t0, t1, "manifest"), newsig_name(t0, t1, "sigtar"),
        full_name(t1, "vol1.difftar.gpg"), full_name(t1, "manifest.gpg"),
        inc_name(t1, t2, "vol1.difftar.gz"), inc_name(t1, t2, "manifest.part"),
        inc_name(t0, t2, "vol2.difftar.gz"),
    ];
    if c.thorough() {
        shared.extend([fullsig_name(t1, "sigtar.part"), inc_name(t1, t3, "vol1.difftar"), inc_name(t2, t3, "manifest"), full_name(t2, "vol5.difftar.g")]);
    }
    let n = shared.len();
    c.explore("shared_times", &format!("every subset of {} files of six snapshots that share start times, end times, kinds and volume numbers", n), Opt::default(), &|ch| subset(ch, &shared));
    for (name, full) in [("full_set", true), ("inc_set", false)] {
        let nm = |tail: &str| span_name(full, t0, if full { t0 } else { t1 }, tail);
        let sg = |tail: &str| sig_name(full, t0, if full { t0 } else { t1 }, tail);
        let mut pool: Vec<String> = [
            "vol0.difftar.gz", "vol1.difftar.gz", "vol1.difftar.gpg", "vol2.difftar", "vol10.difftar.gz", "vol11.difftar.part", "vol1000000.difftar.gz", "vol18446744073709551615.difftar",
            "manifest", "manifest.gpg", "manifest.part",
        ].iter().map(|t| nm(t)).collect();
        pool.extend(["sigtar.gz", "sigtar.gpg", "sigtar.part"].iter().map(|t| sg(t)));
        if c.thorough() {
            pool.extend([nm("vol256.difftar.z"), nm("vol4294967296.difftar.gz"), nm("manifest.gz")]);
        }
        let base = if full { vec![] } else { vec![full_name(t0, "vol9.difftar")] };
        c.explore(name, &format!("every subset of {} files of one snapshot: sparse and huge volume numbers, every mark, competing manifests", pool.len()), Opt::default(), &|ch| {
            let mut names = base.clone();
            names.extend(pool.iter().filter(|_| ch.flag()).cloned());
            judge(ch, names)
        });
    }
    // every pair of time spans, each with its own files and marks
    let mut spans: Vec<(bool, i64, i64)> = (0..4).map(|i| (true, at(i), at(i))).collect();
    for i in 0..4 {
        for j in i + 1..4 {
            spans.push((false, at(i), at(j)));
        }
    }
    let vols = c.by_tier(vec![None, Some("vol1.difftar"), Some("vol1.difftar.gz"), Some("vol2.difftar.gpg")], vec![None, Some("vol1.difftar"), Some("vol1.difftar.gz"), Some("vol2.difftar.gpg"), Some("vol3.difftar.part"), Some("vol1.difftar.z")]);
    let mans = c.by_tier(vec![None, Some("manifest"), Some("manifest.part")], vec![None, Some("manifest"), Some("manifest.part"), Some("manifest.gpg"), Some("manifest.gz")]);
    let sigs = c.by_tier(vec![None, Some("sigtar.gz"), Some("sigtar.part"), Some("sigtar.gpg")], vec![None, Some("sigtar"), Some("sigtar.gz"), Some("sigtar.part"), Some("sigtar.gpg")]);
    c.explore("span_pairs", "every pair of the ten full and incremental spans over four instants, each with every choice of volume, manifest and signature and their marks, next to a chain that reaches all of them", Opt::default(), &|ch| {
        let i = ch.pick(spans.len());
        if i + 1 == spans.len() {
            return Ok(());
        }
        let j = i + 1 + ch.pick(spans.len() - i - 1);
        let mut names = vec![];
        for k in [i, j] {
            let (f, s, e) = spans[k];
            names.extend(ch.of(&vols).map(|t| span_name(f, s, e, t)));
            names.extend(ch.of(&mans).map(|t| span_name(f, s, e, t)));
            names.extend(ch.of(&sigs).map(|t| sig_name(f, s, e, t)));
        }
        // unmarked full backups at the instants where no chosen one starts, so that incrementals are reached
        for t in 0..3 {
            if i != t && j != t {
                names.push(full_name(at(t as i64), "vol9.difftar"));
            }
        }
        judge(ch, names)
    });
    let lens = c.by_tier(vec![1usize, 2, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 2049], (1..=300).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000, 9999, 10_001]).collect());
    c.explore("many_volumes", "1..N volumes listed in every order of three, with one missing at every place for short ones", Opt::default(), &|ch| {
        let full = ch.flag();
        let n = *ch.of(&lens);
        let order = ch.pick(3);
        let miss = if n <= 11 { ch.pick(n + 1) } else { 0 };
        let mut v: Vec<String> = (1..=n).filter(|i| *i != miss).map(|i| span_name(full, t0, if full { t0 } else { t1 }, &format!("vol{}.difftar.gz", i))).collect();
        match order {
            0 => {}
            1 => v.reverse(),
            _ => v.sort(),
        }
        if !full {
            v.push(full_name(t0, "manifest"));
        }
        judge(ch, v)
    });
    let counts = c.by_tier(vec![7usize, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 513], (1..=70).chain([127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049]).collect());
    c.explore("many_snapshots", &format!("up to {} snapshots with all their files: one chain, only full backups, or a new chain every third; forked ones all starting at one instant; volumes, manifests and signatures listed together or apart; names in capitals for none, every second or every third", counts.last().unwrap()), Opt::default(), &|ch| {
        let n = *ch.of(&counts);
        let layout = ch.pick(4);
        let apart = ch.pick(3);
        let caps = ch.pick(3);
        let mut parts: Vec<Vec<String>> = vec![vec![]; 4];
        for i in 0..n as i64 {
            let full = i == 0 || layout == 1 || (layout == 2 && i % 3 == 0);
            let s = if layout == 3 { at(0) } else { at((i - 1).max(0)) };
            let mut mine = vec![span_name(full, s, at(i), "vol1.difftar.gz"), span_name(full, s, at(i), &format!("vol{}.difftar{}", 2 + i % 3, if i % 5 == 1 { ".gpg" } else { "" })), span_name(full, s, at(i), if i % 7 == 2 { "manifest.part" } else { "manifest" }), sig_name(full, s, at(i), if i % 4 == 1 { "sigtar" } else { "sigtar.gz" })];
            if caps > 0 && i % (caps as i64 + 1) == 1 {
                // only some of the snapshot's files
                for k in 0..2 {
                    mine[k * 2] = mine[k * 2].to_uppercase();
                }
            }
            for (k, m) in mine.into_iter().enumerate() {
                parts[if apart == 0 { 0 } else { k }].push(m);
            }
        }
        if apart == 2 {
            parts[1].reverse();
            parts.reverse();
        }
        judge(ch, parts.concat())
    });
    // times that an implementation might confuse: the same in 32 bits, or in their last digits
    let steps: Vec<i64> = vec![1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 86_400, 366 * 86_400, 12_622_780_800, 31_556_952_000];
    let most = c.by_tier(3, 4);
    c.explore("far_times", &format!("every set of up to {} files out of those of all full and incremental spans over 3 instants that are {:?} seconds apart", most, steps), Opt::default(), &|ch| {
        let step = *ch.of(&steps);
        let mut pool = vec![];
        for (full, s, e) in [(true, 0, 0), (true, 1, 1), (true, 2, 2), (false, 0, 1), (false, 0, 2), (false, 1, 2)] {
            let (s, e) = (T0 + s * step, T0 + e * step);
            pool.extend([span_name(full, s, e, "manifest"), span_name(full, s, e, "vol1.difftar.gz"), span_name(full, s, e, "vol2.difftar.gpg"), sig_name(full, s, e, "sigtar.gz")]);
        }
        let mut v = vec![];
        let mut from = 0;
        while v.len() < most && from < pool.len() {
            let x = ch.pick(pool.len() - from + 1);
            if x == 0 {
                break;
            }
            v.push(pool[from + x - 1].clone());
            from += x;
        }
        judge(ch, v)
    });
    // listings larger than any round number an implementation might have in mind
    let sizes: Vec<usize> = c.by_tier(vec![4095, 4096, 4097, 10_001, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_001], (12..=18).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([9_999, 10_000, 10_001, 99_999, 100_000, 100_001, 300_000]).collect());
    c.explore("huge_listings", &format!("listings of {:?} names: that many volumes of one snapshot; that many names that are not duplicity's before, around or after two snapshots; that many snapshots in one chain; a new chain every third snapshot", sizes), Opt::default(), &|ch| {
        let n = *ch.of(&sizes);
        let mut v: Vec<String> = vec![];
        let two = |v: &mut Vec<String>| {
            for tail in ["manifest", "vol1.difftar.gz", "vol2.difftar.gz"] {
                v.extend([full_name(t0, tail), inc_name(t0, t1, tail)]);
            }
            v.extend([fullsig_name(t0, "sigtar.gz"), newsig_name(t0, t1, "sigtar.gz")]);
        };
        match ch.pick(6) {
            0 => {
                v.extend((1..=n).map(|i| full_name(t0, &format!("vol{}.difftar.gz", i))));
                v.push(full_name(t0, "manifest"));
                v.push(inc_name(t0, t1, "manifest"));
            }
            1 => {
                v.extend((0..n).map(|i| format!("other{}", i)));
                two(&mut v);
            }
            2 => {
                two(&mut v);
                v.extend((0..n).map(|i| format!("other{}", i)));
            }
            3 => {
                two(&mut v);
                let half = v.split_off(4);
                v.extend((0..n).map(|i| format!("other{}", i)));
                v.extend(half);
            }
            k => {
                // an unreasonable number of snapshots takes unreasonably long
                if n > 10_001 {
                    return Ok(());
                }
                v.extend((0..n as i64).map(|i| if i == 0 || (k == 5 && i % 3 == 0) { full_name(at(i), "manifest") } else { inc_name(at(i - 1), at(i), "manifest") }));
            }
        }
        judge(ch, v)
    });
}
