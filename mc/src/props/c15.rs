//! C15: timestamps denote the exact UTC instant they spell.
use crate::engine::*;
use crate::model::{days_in_month, instant, parse_stamp};
use ruplicity::collections::Collections;
use ruplicity::timefmt::parse_time_str;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Zones in which the timestamps are read: none of them may matter.
const ZONES: [&str; 4] = ["UTC0", "XXX-14", "EST5EDT,M3.2.0,M11.1.0", "YYY11:30"];

fn check(s: &str) -> R {
    let got = catch_unwind(AssertUnwindSafe(|| parse_time_str(s))).map_err(|_| format!("parsing {:?} panics", s))?;
    let want = parse_stamp(s.as_bytes());
    ensure_eq!(got.map(|t| (t.sec, t.nsec)), want.map(|t| (t, 0)), "instant of {:?}", s);
    Ok(())
}

fn spell(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> String {
    format!("{:04}{:02}{:02}t{:02}{:02}{:02}z", y, mo, d, h, mi, s)
}

pub fn run(c: &mut Ctx) {
    c.rule = "the string is not the one of the unit test".into();
    c.assumptions = vec!["the library reads lower case timestamps (file names are lower-cased before); second 60 is not spelled by duplicity".into()];
    let zones: &[&str] = c.by_tier(&ZONES[..3], &ZONES[..]);
    for (zi, z) in zones.iter().enumerate() {
        crate::sys::set_tz(z);
        let days: &'static str = ["days_utc", "days_east", "days_dst", "days_west"][zi];
        let (from, to) = c.by_tier((1801, 2200), (0, 9999));
        c.explore(days, &format!("every day of the years {}..={} at three times of day, in order, TZ={}", from, to, z), Opt::default(), &|ch| {
            let y = from + ch.pick((to - from + 1) as usize) as i64;
            let mo = 1 + ch.pick(12) as i64;
            ch.nontrivial();
            ch.state(&(y, mo));
            let mut last = i64::MIN;
            for d in 1..=days_in_month(y, mo) {
                for (h, mi, s) in [(0, 0, 0), (2, 30, 1), (23, 59, 59)] {
                    let t = spell(y, mo, d, h, mi, s);
                    check(&t)?;
                    let now = instant(y, mo, d, h, mi, s);
                    ensure!(now > last, "the model is not monotonic");
                    last = now;
                    ch.step();
                }
            }
            ch.note(|| format!("{:04}-{:02}", y, mo));
            ch.outcome(&last);
            Ok(())
        });
        let secs: &'static str = ["seconds_utc", "seconds_east", "seconds_dst", "seconds_west"][zi];
        c.explore(secs, &format!("every second of the days around a leap day, a DST change and a year end, TZ={}", z), Opt::default(), &|ch| {
            let (y, mo, d) = *ch.of(&[(2016, 2, 29), (2015, 3, 8), (2015, 11, 1), (1999, 12, 31), (1969, 12, 31), (2038, 1, 19)]);
            let h = ch.pick(24) as i64;
            let mi = ch.pick(60) as i64;
            ch.nontrivial();
            ch.state(&(y, mo, d, h, mi));
            for s in 0..60 {
                check(&spell(y, mo, d, h, mi, s))?;
                ch.step();
            }
            ch.outcome(&(y, h, mi));
            Ok(())
        });
    }
    crate::sys::set_tz("UTC");
    let years: Vec<i64> = c.by_tier(vec![0, 1900, 1969, 1970, 2000, 2015, 2016, 9999], (0..=9999).step_by(97).chain([4, 100, 400, 1600, 1900, 2000, 2016, 2100, 9999]).collect());
    c.explore("date_fields", "every two-digit month and every two-digit day, in leap and other years", Opt::default(), &|ch| {
        let y = *ch.of(&years);
        let mo = ch.pick(100) as i64;
        ch.nontrivial();
        ch.state(&(y, mo));
        for d in 0..100 {
            check(&spell(y, mo, d, 18, 25, 45))?;
            ch.step();
        }
        ch.outcome(&(y, mo));
        Ok(())
    });
    c.explore("time_fields", "every two-digit hour, minute and second", Opt::default(), &|ch| {
        let h = ch.pick(100) as i64;
        let mi = ch.pick(100) as i64;
        ch.nontrivial();
        ch.state(&(h, mi));
        for s in 0..100 {
            check(&spell(2015, 6, 17, h, mi, s))?;
            ch.step();
        }
        ch.outcome(&(h, mi));
        Ok(())
    });
    // the same, where timestamps are read from: file names
    let (from, to) = c.by_tier((1801, 2200), (0, 9999));
    let edge: Vec<i64> = [0, 1, 4, 99, 100, 399, 400, 999, 1000, 1582, 1600, 1752, 1799, 1800, 2399, 2400, 2999, 3000, 4000, 5881, 8000, 9996, 9998, 9999].iter().cloned().filter(|y| *y < from || *y > to).collect();
    c.explore("in_names", &format!("the file names of a full and an incremental backup and their signatures on each day 00..=32 of each month 00..=13 of the years {}..={} and {} others; in lower and upper case", from, to, edge.len()), Opt::default(), &|ch| {
        let k = ch.pick((to - from + 1) as usize + edge.len());
        let y = if k < edge.len() { edge[k] } else { from + (k - edge.len()) as i64 };
        let upper = ch.flag();
        ch.nontrivial();
        ch.state(&(y, upper));
        let mut names = vec![];
        let mut want = vec![];
        for mo in 0..=13 {
            for d in 0..=32 {
                let (h, mi, s) = ((mo * 7 + d) % 24, (mo + d * 5) % 59, (mo * 3 + d) % 60);
                let (a, b) = (spell(y, mo, d, h, mi, s), spell(y, mo, d, h, mi + 1, s));
                let (a, b) = if upper { (a.to_uppercase(), b.to_uppercase()) } else { (a, b) };
                names.push(format!("duplicity-full.{}.vol1.difftar.gz", a));
                names.push(format!("duplicity-full.{}.manifest", a));
                names.push(format!("duplicity-full-signatures.{}.sigtar.gz", a));
                names.push(format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", a, b));
                names.push(format!("duplicity-inc.{}.to.{}.manifest", a, b));
                names.push(format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", a, b));
                if let (Some(a), Some(b)) = (parse_stamp(a.to_lowercase().as_bytes()), parse_stamp(b.to_lowercase().as_bytes())) {
                    want.push((a, b));
                }
                ch.step();
            }
        }
        let coll = catch_unwind(AssertUnwindSafe(|| Collections::from_filenames(&names))).map_err(|_| format!("the names of the year {} cause a panic", y))?;
        let mut backups: Vec<_> = coll.backup_chains().map(|b| {
            let (f, i): (_, Vec<_>) = (b.full_set(), b.inc_sets().collect());
            (f.start_time().sec, f.end_time().sec, i.iter().map(|i| (i.start_time().sec, i.end_time().sec)).collect::<Vec<_>>())
        }).collect();
        let mut sigs: Vec<_> = coll.signature_chains().map(|s| (s.start_time().sec, s.end_time().sec, s.inc_signatures().count())).collect();
        backups.sort();
        sigs.sort();
        ensure_eq!(backups.len(), want.len(), "number of backups of the year {:04}", y);
        ensure_eq!(sigs.len(), want.len(), "number of signature chains of the year {:04}", y);
        for (i, (a, b)) in want.iter().enumerate() {
            ensure_eq!(backups[i], (*a, *a, vec![(*a, *b)]), "times of the backup of the year {:04} at {}", y, a);
            ensure_eq!(sigs[i], (*a, *b, 1), "times of the signatures of the year {:04} at {}", y, a);
        }
        ch.outcome(&y);
        Ok(())
    });
    // every edit of canonical strings
    let bases = ["20150617t182545z", "00010101t000000z", "19991231t235959z", "20160229t090807z"];
    let alphabet: Vec<char> = (0u8..=127).map(|b| b as char).chain(['\u{e9}', '\u{663}', '\u{ff11}', '\u{a0}', '\u{2212}']).collect();
    c.explore("one_edit", "every replacement, insertion, deletion, transposition, prefix and suffix of canonical timestamps with every ASCII and some other characters", Opt::default(), &|ch| {
        let base: Vec<char> = ch.of(&bases).chars().collect();
        let mut v = base.clone();
        match ch.pick(6) {
            0 => {
                let i = ch.pick(16);
                v[i] = *ch.of(&alphabet);
            }
            1 => {
                let i = ch.pick(17);
                v.insert(i, *ch.of(&alphabet));
            }
            2 => drop(v.remove(ch.pick(16))),
            3 => {
                let i = ch.pick(15);
                v.swap(i, i + 1);
            }
            4 => v.truncate(ch.pick(16)),
            _ => v = v[ch.pick(16) + 1..].to_vec(),
        }
        let s: String = v.iter().collect();
        ch.nontrivial();
        ch.state(&s);
        ch.outcome(&parse_stamp(s.as_bytes()));
        ch.note(|| s.clone());
        check(&s)
    });
    let small: Vec<char> = c.by_tier("0 9+-tTzZ:/\u{e9}".chars().collect(), alphabet.clone());
    c.explore("two_edits", "every pair of replacements, and every replacement together with a deletion or insertion, over a small alphabet", Opt::default(), &|ch| {
        let mut v: Vec<char> = bases[0].chars().collect();
        let i = ch.pick(16);
        v[i] = *ch.of(&small);
        match ch.pick(3) {
            0 => {
                let j = ch.pick(16);
                v[j] = *ch.of(&small);
            }
            1 => drop(v.remove(ch.pick(16))),
            _ => {
                let j = ch.pick(17);
                v.insert(j, *ch.of(&small));
            }
        }
        let s: String = v.iter().collect();
        ch.nontrivial();
        ch.state(&s);
        ch.outcome(&parse_stamp(s.as_bytes()));
        ch.note(|| s.clone());
        check(&s)
    });
    c.explore("shapes", "every placement of the fields with missing or doubled digits: each of the eight gaps with 0..=2 extra characters", Opt::default(), &|ch| {
        let fields = ["2015", "06", "17", "t", "18", "25", "45", "z"];
        let mut s = String::new();
        for f in fields {
            match ch.pick(4) {
                0 => s.push_str(f),
                1 => s.push_str(&f[..f.len() - 1]),
                2 => s.extend([" ", f]),
                _ => s.extend(["0", f]),
            }
        }
        ch.nontrivial();
        ch.state(&s);
        ch.outcome(&parse_stamp(s.as_bytes()));
        ch.note(|| s.clone());
        check(&s)
    });
}
