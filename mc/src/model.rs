//! Reference models that do not look at how ruplicity does it: a calendar, duplicity's file-name
//! grammar (a hand-written scanner), and the file lists of snapshots.

/// Days since 1970-01-01 of a proleptic Gregorian date.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn is_leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + is_leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn instant(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s
}
/// (year, month, day, hour, minute, second) in UTC.
pub fn civil(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let d = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let (y, m, dd) = civil_from_days(d);
    (y, m, dd, s / 3600, s / 60 % 60, s % 60)
}
pub const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// duplicity's spelling of an instant.
pub fn stamp(t: i64) -> String {
    let (y, m, d, h, mi, s) = civil(t);
    format!("{:04}{:02}{:02}T{:02}{:02}{:02}Z", y, m, d, h, mi, s)
}

/// Reads YYYYMMDDtHHMMSSz (lower case), exactly 16 bytes.
pub fn parse_stamp(s: &[u8]) -> Option<i64> {
    if s.len() != 16 || s[8] != b't' || s[15] != b'z' {
        return None;
    }
    let num = |a: usize, b: usize| -> Option<i64> {
        let mut v = 0;
        for &c in &s[a..b] {
            if !c.is_ascii_digit() {
                return None;
            }
            v = v * 10 + (c - b'0') as i64;
        }
        Some(v)
    };
    let (y, mo, d, h, mi, se) = (num(0, 4)?, num(4, 6)?, num(6, 8)?, num(9, 11)?, num(11, 13)?, num(13, 15)?);
    if mo < 1 || mo > 12 || d < 1 || d > days_in_month(y, mo) || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    Some(instant(y, mo, d, h, mi, se))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Vol,
    Man,
    Sig,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Name {
    pub kind: Kind,
    pub full: bool,
    pub start: i64,
    pub end: i64,
    pub vol: usize,
    pub part: bool,
    pub compressed: bool,
    pub encrypted: bool,
}

/// Scans a file name; None if it is not one of duplicity's.
pub fn parse_name(name: &str) -> Option<Name> {
    let l = name.to_ascii_lowercase();
    let b = l.as_bytes();
    fn eat<'a>(b: &'a [u8], p: &str) -> Option<&'a [u8]> {
        b.strip_prefix(p.as_bytes())
    }
    fn time(b: &[u8]) -> Option<(i64, &[u8])> {
        if b.len() < 16 {
            return None;
        }
        Some((parse_stamp(&b[..16])?, &b[16..]))
    }
    let (full, sig, rest) = if let Some(r) = eat(b, "duplicity-full.") {
        (true, false, r)
    } else if let Some(r) = eat(b, "duplicity-inc.") {
        (false, false, r)
    } else if let Some(r) = eat(b, "duplicity-full-signatures.") {
        (true, true, r)
    } else if let Some(r) = eat(b, "duplicity-new-signatures.") {
        (false, true, r)
    } else {
        return None;
    };
    let (start, rest) = time(rest)?;
    let (end, rest) = if full {
        (start, rest)
    } else {
        time(eat(rest, ".to.")?)?
    };
    let (kind, vol, rest) = if sig {
        (Kind::Sig, 0, eat(rest, ".sigtar")?)
    } else if let Some(r) = eat(rest, ".manifest") {
        (Kind::Man, 0, r)
    } else {
        let r = eat(rest, ".vol")?;
        let n = r.iter().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        let mut v: u128 = 0;
        for c in &r[..n] {
            v = v * 10 + (*c - b'0') as u128;
            if v > usize::MAX as u128 {
                return None;
            }
        }
        (Kind::Vol, v as usize, eat(&r[n..], ".difftar")?)
    };
    let (part, rest) = match eat(rest, ".part") {
        Some(r) if r.is_empty() || r[0] == b'.' => (true, r),
        _ => (false, rest),
    };
    if !rest.is_empty() && rest[0] != b'.' {
        return None;
    }
    Some(Name {
        kind, full, start, end, vol, part,
        compressed: l.ends_with(".gz") || l.ends_with(".z"),
        encrypted: l.ends_with(".gpg") || l.ends_with(".g"),
    })
}

/// One snapshot's files as the listing gives them.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct SetModel {
    pub full: bool,
    pub start: i64,
    pub end: i64,
    pub manifests: Vec<String>,         // complete ones
    pub partial_manifests: Vec<String>, // marked .part
    pub volumes: std::collections::BTreeMap<usize, Vec<String>>,
    pub compressed: bool,
    pub encrypted: bool,
    pub partial: bool,
}

/// Groups a listing by snapshot. A snapshot exists when any file of it is listed.
pub fn sets(names: &[String]) -> Vec<SetModel> {
    let mut m: std::collections::BTreeMap<(i64, bool, i64), SetModel> = Default::default();
    for n in names {
        let p = match parse_name(n) {
            Some(p) => p,
            None => continue,
        };
        let s = m.entry((p.end, !p.full, p.start)).or_insert_with(|| SetModel { full: p.full, start: p.start, end: p.end, ..Default::default() });
        s.compressed |= p.compressed;
        s.encrypted |= p.encrypted;
        match p.kind {
            Kind::Man => {
                s.partial |= p.part;
                if p.part { s.partial_manifests.push(n.clone()) } else { s.manifests.push(n.clone()) }
            }
            Kind::Sig => s.partial |= p.part,
            Kind::Vol => s.volumes.entry(p.vol).or_default().push(n.clone()),
        }
    }
    m.into_values().collect()
}

/// A span of time covered by one backup; full when start == end by kind, not by value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Span {
    pub full: bool,
    pub start: i64,
    pub end: i64,
}

/// Checks the chains built from `spans` against what contiguous, disjoint and maximal mean.
/// `keep_latest`: of two incrementals that start at the same instant the one that ends later is kept.
pub fn check_chains(spans: &std::collections::BTreeSet<Span>, chains: &[Vec<Span>], keep_latest: bool, what: &str) -> Result<(), String> {
    let mut seen = std::collections::BTreeSet::new();
    for c in chains {
        crate::ensure!(!c.is_empty() && c[0].full, "{}: a chain does not start with a full backup: {:?}", what, c);
        for (i, s) in c.iter().enumerate() {
            crate::ensure!(spans.contains(s), "{}: {:?} is in a chain but was not listed", what, s);
            crate::ensure!(seen.insert(*s), "{}: {:?} is in two places", what, s);
            if i > 0 {
                crate::ensure!(!s.full, "{}: full backup {:?} inside a chain", what, s);
                crate::ensure!(s.start == c[i - 1].end, "{}: chain is not contiguous: {:?}", what, c);
            }
        }
    }
    for s in spans {
        if s.full {
            crate::ensure!(seen.contains(s), "{}: full backup {:?} is in no chain", what, s);
        } else if !seen.contains(s) {
            for c in chains {
                let last = c.last().unwrap();
                let replaced = keep_latest && seen.iter().any(|x| !x.full && x.start == s.start && x.end > s.end);
                crate::ensure!(last.end != s.start || replaced, "{}: {:?} would continue chain {:?} but is in none", what, s, c);
                if keep_latest && !last.full && last.start == s.start {
                    crate::ensure!(s.end <= last.end, "{}: {:?} was kept over {:?}, which ends later", what, last, s);
                }
            }
            // it may be left out only if its place is taken, or was never there
            let prefix_ends = chains.iter().any(|c| c.iter().any(|x| x.end == s.start));
            if prefix_ends {
                let rival = chains.iter().flat_map(|c| c.iter()).any(|x| !x.full && x.start == s.start);
                crate::ensure!(rival, "{}: {:?} is in no chain although a chain reaches its start and nothing else continues from there", what, s);
            }
        }
    }
    Ok(())
}

/// The exact backup chains when no two spans end at the same instant.
pub fn exact_chains(spans: &std::collections::BTreeSet<Span>) -> Vec<Vec<Span>> {
    let mut v: Vec<Span> = spans.iter().cloned().collect();
    v.sort_by_key(|s| s.end);
    let mut chains: Vec<Vec<Span>> = vec![];
    for s in v {
        if s.full {
            chains.push(vec![s]);
            continue;
        }
        for c in &mut chains {
            let last = *c.last().unwrap();
            if last.end == s.start {
                c.push(s);
                break;
            }
            if !last.full && last.start == s.start {
                *c.last_mut().unwrap() = s;
                break;
            }
        }
    }
    chains.sort_by_key(|c| c.last().unwrap().end);
    chains
}
