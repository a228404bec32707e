//! C03: how backups form chains.
use super::coll;
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;

pub fn run(c: &mut Ctx) {
    c.rule = "more than one span is listed".into();
    c.assumptions = vec!["an incremental ends after it starts".into(), "when several spans end at the same instant which of the possible chains an incremental joins is left open".into()];
    let go = |ch: &mut Ch, clock: i64, mode: usize, step: i64| -> R {
        let mut names = vec![];
        let mut spans = vec![];
        for e in 0..clock {
            for s in 0..=e {
                // s == e stands for a full backup at e
                let full = s == e;
                let what = match mode {
                    0 => ch.pick(2) * 3,
                    1 => [0, 1, 2][ch.pick(3)],
                    _ => ch.pick(4),
                };
                if what == 0 {
                    continue;
                }
                spans.push((full, s, e, what));
                let (ts, te) = (T0 + s * step, T0 + e * step);
                if what & 1 != 0 {
                    names.push(span_name(full, ts, te, "vol1.difftar.gz"));
                }
                if what & 2 != 0 {
                    names.push(sig_name(full, ts, te, "sigtar.gz"));
                }
            }
        }
        ch.state(&spans);
        if spans.len() > 1 {
            ch.nontrivial();
        }
        ch.note(|| format!("{:?}", spans));
        let c = Collections::from_filenames(&names);
        ch.outcome(&coll::describe(&c, &[1]));
        coll::check(&c, &names).map_err(|e| format!("{}\n  spans (full, start, end, 1 files 2 signatures): {:?}", e, spans))
    };
    let k = c.by_tier(5, 6);
    c.explore("spans_both", &format!("every set of full and incremental spans over {} instants, with files and signatures", k), Opt::default(), &|ch| go(ch, k, 0, 1));
    c.explore("spans_separate", "every assignment of {absent, files, signature} to the spans over 4 instants", Opt::default(), &|ch| go(ch, 4, 1, 86400 * 200));
    if c.thorough() {
        c.explore("spans_any", "every assignment of {absent, files, signature, both} to the spans over 4 instants", Opt::default(), &|ch| go(ch, 4, 2, 3600));
    } else {
        c.explore("spans_any", "every assignment of {absent, files, signature, both} to the spans over 3 instants", Opt::default(), &|ch| go(ch, 3, 2, 3600));
    }
    // instants that an implementation might confuse: the same in 32 bits, or all but
    c.explore("spans_far", "every set of full and incremental spans, with files and signatures, over 4 instants that are 2^8, 2^16, 2^31 or 2^32 seconds or 400 years apart", Opt::default(), &|ch| {
        let step = *ch.of(&[1i64 << 8, 1 << 16, 1 << 31, 1 << 32, 12_622_780_800]);
        go(ch, 4, 0, step)
    });
    // listing order of the spans must not matter to continuity
    c.explore("order", "every order of listing the spans of two interleaved chains with a fork and an orphan", Opt::default(), &|ch| {
        let t = |n: i64| T0 + n * 7;
        let mut pool = vec![(true, 0, 0), (false, 0, 1), (false, 1, 3), (true, 2, 2), (false, 2, 4), (false, 0, 2), (false, 7, 8)];
        if pool.len() > 6 && !ch.flag() {
            pool.truncate(6);
        }
        let mut names = vec![];
        while !pool.is_empty() {
            let (f, s, e) = pool.remove(ch.pick(pool.len()));
            names.push(span_name(f, t(s), t(e), "manifest"));
            names.push(sig_name(f, t(s), t(e), "sigtar.gz"));
        }
        ch.state(&names);
        ch.nontrivial();
        let c = Collections::from_filenames(&names);
        ch.outcome(&coll::describe(&c, &[1]));
        coll::check(&c, &names).map_err(|e| format!("{}\n  listing: {:?}", e, names))
    });
    // names are only names: nothing keeps an incremental from claiming to end before it starts
    c.explore("backwards", "every set of full and incremental spans over 3 instants where incrementals may also end when, or before, they start: what is reported is still contiguous, disjoint and says its own span", Opt::default(), &|ch| {
        let mut names = vec![];
        let mut spans = vec![];
        for full in [true, false] {
            for s in 0..3i64 {
                for e in if full { s..s + 1 } else { 0..3 } {
                    if ch.flag() {
                        spans.push((full, s, e));
                        names.push(span_name(full, T0 + s * 60, T0 + e * 60, "vol1.difftar.gz"));
                        names.push(sig_name(full, T0 + s * 60, T0 + e * 60, "sigtar.gz"));
                    }
                }
            }
        }
        ch.state(&spans);
        if spans.len() > 1 {
            ch.nontrivial();
        }
        ch.note(|| format!("{:?}", spans));
        let c = Collections::from_filenames(&names);
        ch.outcome(&coll::describe(&c, &[1]));
        coll::check_up_to(&c, &names, false).map_err(|e| format!("{}\n  spans (full, start, end): {:?}", e, spans))
    });
    // long chains
    let lens = c.by_tier(vec![2i64, 3, 10, 50, 127, 128, 129, 255, 256, 257, 300, 1025], vec![2, 3, 10, 50, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]);
    c.explore("long", "one chain of n incrementals listed forwards, backwards and interleaved, with none, or every second or third name in capitals, or every third file partial", Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let how = ch.pick(3);
        let gap = ch.pick(3); // 0 none, else an incremental is missing
        let style = ch.pick(4);
        let mut idx: Vec<i64> = (0..=n).collect();
        match how {
            0 => {}
            1 => idx.reverse(),
            _ => idx.sort_by_key(|i| (i % 3, *i)),
        }
        let miss = [-1, 1, n - 1][gap];
        let names: Vec<String> = idx.into_iter().filter(|i| *i != miss).flat_map(|i| {
            let (f, s, e) = (i == 0, T0 + (i - 1).max(0) * 60, T0 + i * 60);
            // names whose spelling sorts otherwise than their times do
            let v = vec![span_name(f, s, e, if style == 2 && i % 3 == 1 { "vol1.difftar.part" } else { "vol1.difftar.gz" }), sig_name(f, s, e, if style == 2 && i % 3 == 1 { "sigtar.part" } else { "sigtar.gz" })];
            if style == 1 && i % 3 == 0 || style == 3 && i % 2 == 0 { v.iter().map(|x| x.to_uppercase()).collect() } else { v }
        }).collect();
        ch.state(&(n, how, gap, style));
        ch.nontrivial();
        let c = Collections::from_filenames(&names);
        ch.outcome(&c.num_snapshots());
        coll::check(&c, &names)
    });
    // many chains
    let counts = c.by_tier(vec![3i64, 8, 16, 17, 33, 65, 129, 257], vec![3, 8, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1025]);
    c.explore("many_chains", &format!("{:?} chains of 0 to 3 incrementals: one after the other, all fulls first with the incrementals in turn forwards or backwards, or nested; listed in three orders, or with every third or fourth backup's names in capitals; with the second incremental of no, every or every third chain missing", counts), Opt::default(), &|ch| {
        let n = *ch.of(&counts);
        let incs = ch.pick(4) as i64;
        let layout = ch.pick(4);
        let how = ch.pick(5);
        let missing = if incs >= 2 { ch.pick(3) } else { 0 };
        // instant of the j-th backup of chain i
        let when = |i: i64, j: i64| T0 + 60 * match layout {
            0 => i * (incs + 1) + j,
            1 => j * n + i,
            2 => j * n + if j == 0 { i } else { n - 1 - i },
            _ => if j == 0 { i } else { n + (n - 1 - i) * incs + j },
        };
        let mut names: Vec<String> = vec![];
        for i in 0..n {
            for j in 0..=incs {
                if j == 2 && (missing == 1 || missing == 2 && i % 3 == 0) {
                    continue;
                }
                let (f, s, e) = (j == 0, when(i, (j - 1).max(0)), when(i, j));
                names.push(span_name(f, s, e, "vol1.difftar.gz"));
                names.push(sig_name(f, s, e, "sigtar.gz"));
            }
        }
        match how {
            0 => {}
            1 => names.reverse(),
            2 => names.sort(),
            k => {
                for (i, x) in names.iter_mut().enumerate() {
                    if i % (2 * k - 1) < 2 {
                        *x = x.to_uppercase();
                    }
                }
            }
        }
        ch.state(&(n, incs, layout, missing, how));
        ch.nontrivial();
        let c = Collections::from_filenames(&names);
        ch.outcome(&(c.num_snapshots(), c.backup_chains().len()));
        coll::check(&c, &names)
    });
}
