//! Compares what `Collections` reports with the reference models.
use crate::engine::R;
use crate::model::{self, Kind, Span};
use ruplicity::collections::{BackupSet, Collections};
use std::collections::{BTreeMap, BTreeSet};

/// Everything observable about a listing's interpretation, in order.
pub fn describe(c: &Collections, probes: &[usize]) -> String {
    let mut o = String::new();
    use std::fmt::Write;
    let set = |s: &BackupSet| {
        let vols: Vec<_> = probes.iter().filter_map(|n| s.volume_path(*n).map(|p| format!("{}={}", n, p))).collect();
        format!("{}{}[{}..{}] man={:?} vols={:?} n={} complete={} partial={} compressed={} encrypted={}", if s.is_full() { "F" } else { "" }, if s.is_incremental() { "I" } else { "" },
            s.start_time().sec, s.end_time().sec, s.manifest_path(), vols, s.num_volumes(), s.is_complete(), s.is_partial(), s.is_compressed(), s.is_encrypted())
    };
    for ch in c.backup_chains() {
        let _ = writeln!(o, "chain {}..{}", ch.start_time().sec, ch.end_time().sec);
        let _ = writeln!(o, "  {}", set(ch.full_set()));
        for s in ch.inc_sets() {
            let _ = writeln!(o, "  {}", set(s));
        }
    }
    for ch in c.signature_chains() {
        let _ = writeln!(o, "sigs {}..{}", ch.start_time().sec, ch.end_time().sec);
        for s in std::iter::once(ch.full_signature()).chain(ch.inc_signatures()) {
            let _ = writeln!(o, "  {} {} gz={} enc={}", s.file_name, s.time.sec, s.compressed, s.encrypted);
        }
    }
    let _ = writeln!(o, "{} snapshots", c.num_snapshots());
    o
}

/// Volume numbers worth asking for, given the listed names.
pub fn probes(names: &[String]) -> Vec<usize> {
    let mut p: BTreeSet<usize> = (0..4).collect();
    p.insert(usize::MAX);
    for n in names {
        if let Some(x) = model::parse_name(n) {
            if x.kind == Kind::Vol {
                p.extend([x.vol, x.vol.wrapping_add(1), x.vol.wrapping_sub(1)]);
            }
        }
    }
    p.into_iter().collect()
}

fn nsec0(t: time::Timespec, what: &str) -> Result<i64, String> {
    ensure!(t.nsec == 0, "{} has a fraction of a second: {:?}", what, t);
    Ok(t.sec)
}

/// Checks one reported set against its model.
pub fn check_set(s: &BackupSet, m: &model::SetModel, probes: &[usize]) -> R {
    let what = format!("{} {}..{}", if m.full { "full" } else { "incremental" }, m.start, m.end);
    ensure!(s.is_full() == m.full && s.is_incremental() == !m.full, "{}: is_full {} is_incremental {}", what, s.is_full(), s.is_incremental());
    ensure_eq!((nsec0(s.start_time(), "start")?, nsec0(s.end_time(), "end")?), (m.start, m.end), "{}: times", what);
    let man = s.manifest_path().to_string();
    if !m.manifests.is_empty() {
        ensure!(m.manifests.contains(&man), "{}: manifest is {:?} but the listed ones are {:?} {:?}", what, man, m.manifests, m.partial_manifests);
    } else if !m.partial_manifests.is_empty() {
        ensure!(m.partial_manifests.contains(&man), "{}: manifest is {:?} but the listed ones are {:?}", what, man, m.partial_manifests);
    } else {
        ensure!(man.is_empty(), "{}: manifest is {:?} but none is listed", what, man);
    }
    ensure_eq!(s.is_complete(), !m.manifests.is_empty() || !m.partial_manifests.is_empty(), "{}: complete", what);
    for n in probes {
        match (s.volume_path(*n), m.volumes.get(n)) {
            (None, None) => {}
            (Some(p), Some(c)) if c.iter().any(|x| x == p) => {}
            (got, want) => return Err(format!("{}: volume {} is {:?} but the listed ones are {:?}", what, n, got, want)),
        }
    }
    ensure_eq!(s.num_volumes(), m.volumes.len(), "{}: number of volumes (listed: {:?})", what, m.volumes.keys().collect::<Vec<_>>());
    ensure_eq!(s.is_partial(), m.partial, "{}: partial", what);
    ensure_eq!(s.is_compressed(), m.compressed, "{}: compressed", what);
    ensure_eq!(s.is_encrypted(), m.encrypted, "{}: encrypted", what);
    Ok(())
}

fn span(s: &BackupSet) -> Span {
    Span { full: s.is_full(), start: s.start_time().sec, end: s.end_time().sec }
}

/// Checks a whole collection against the listing it was made from.
pub fn check(c: &Collections, names: &[String]) -> R {
    check_up_to(c, names, true)
}

/// `maximal`: also that no chain could have taken more; left out where incrementals end before they start.
pub fn check_up_to(c: &Collections, names: &[String], maximal: bool) -> R {
    let sets = model::sets(names);
    let probes = probes(names);
    let by_span: BTreeMap<Span, &model::SetModel> = sets.iter().map(|s| (Span { full: s.full, start: s.start, end: s.end }, s)).collect();
    let spans: BTreeSet<Span> = by_span.keys().cloned().collect();
    let mut chains = vec![];
    let mut total = 0;
    let mut last_end = i64::MIN;
    for ch in c.backup_chains() {
        let v: Vec<Span> = std::iter::once(ch.full_set()).chain(ch.inc_sets()).map(span).collect();
        total += v.len();
        ensure_eq!((nsec0(ch.start_time(), "chain start")?, nsec0(ch.end_time(), "chain end")?), (v[0].start, v.last().unwrap().end), "span of chain {:?}", v);
        ensure!(ch.end_time().sec >= last_end, "backup chains are not in order of their end: {} after {}", ch.end_time().sec, last_end);
        last_end = ch.end_time().sec;
        chains.push(v);
        for s in std::iter::once(ch.full_set()).chain(ch.inc_sets()) {
            match by_span.get(&span(s)) {
                Some(m) => check_set(s, m, &probes)?,
                None => return Err(format!("a set {:?} is reported but not listed", span(s))),
            }
        }
    }
    ensure_eq!(c.num_snapshots(), total, "number of snapshots");
    if maximal {
        model::check_chains(&spans, &chains, true, "backup chains")?;
    } else {
        contiguous(&spans, &chains, "backup")?;
    }
    let ends: BTreeSet<i64> = spans.iter().map(|s| s.end).collect();
    if maximal && ends.len() == spans.len() {
        ensure_eq!(chains, model::exact_chains(&spans), "backup chains");
    }
    // signatures
    let mut sig_spans = BTreeSet::new();
    let mut sig_names: BTreeMap<Span, Vec<(String, model::Name)>> = BTreeMap::new();
    for n in names {
        if let Some(p) = model::parse_name(n) {
            if p.kind == Kind::Sig {
                let s = Span { full: p.full, start: p.start, end: p.end };
                sig_spans.insert(s);
                sig_names.entry(s).or_default().push((n.clone(), p));
            }
        }
    }
    let unique = sig_names.values().all(|v| v.len() == 1);
    let mut chains = vec![];
    let mut last_start = i64::MIN;
    for ch in c.signature_chains() {
        let mut v = vec![];
        for s in std::iter::once(ch.full_signature()).chain(ch.inc_signatures()) {
            let p = match model::parse_name(&s.file_name) {
                Some(p) if p.kind == Kind::Sig && names.iter().any(|n| *n == s.file_name) => p,
                _ => return Err(format!("signature file {:?} is reported but not listed", s.file_name)),
            };
            ensure_eq!((nsec0(s.time, "signature")?, s.compressed, s.encrypted), (p.end, p.compressed, p.encrypted), "time and marks of signature {}", s.file_name);
            v.push(Span { full: p.full, start: p.start, end: p.end });
        }
        ensure_eq!((nsec0(ch.start_time(), "chain start")?, nsec0(ch.end_time(), "chain end")?), (v[0].start, v.last().unwrap().end), "span of signature chain {:?}", v);
        ensure!(ch.start_time().sec >= last_start, "signature chains are not in order of their start");
        last_start = ch.start_time().sec;
        chains.push(v);
    }
    if !maximal {
        contiguous(&sig_spans, &chains, "signature")?;
    } else if unique {
        model::check_chains(&sig_spans, &chains, false, "signature chains")?;
    } else {
        // several files for the same span: one chain per full signature file, continuity still holds
        for c in &chains {
            ensure!(c[0].full, "signature chain does not start with a full signature");
            for w in c.windows(2) {
                ensure!(!w[1].full && w[1].start == w[0].end, "signature chain is not contiguous: {:?}", c);
            }
        }
        for s in sig_spans.iter().filter(|s| s.full) {
            ensure!(chains.iter().any(|c| c[0] == *s), "full signature {:?} starts no chain", s);
        }
    }
    Ok(())
}

fn contiguous(spans: &BTreeSet<Span>, chains: &[Vec<Span>], what: &str) -> R {
    let mut seen = BTreeSet::new();
    for c in chains {
        for (i, s) in c.iter().enumerate() {
            ensure!(s.full == (i == 0), "{} chain has a full backup where none belongs, or none at its start: {:?}", what, c);
            ensure!(seen.insert(*s), "{} chains: {:?} is in two places", what, s);
            ensure!(i == 0 || c[i - 1].end == s.start, "{} chain is not contiguous: {:?}", what, c);
        }
    }
    for s in spans.iter().filter(|s| s.full) {
        ensure!(seen.contains(s), "{} chains: full {:?} is in none", what, s);
    }
    Ok(())
}
