//! C16: times are shown in the requested zone, with the right form.
use crate::engine::*;
use crate::model::{civil, days_from_civil, days_in_month, instant, MONTHS};
use ruplicity::timefmt::TimeDisplay;
use time::Timespec;

/// Last or n-th Sunday of a month (n = 5: the last), at a wall-clock hour.
#[derive(Clone, Copy)]
struct Rule {
    month: i64,
    week: i64,
    hour: i64,
}
#[derive(Clone, Copy)]
pub struct Zone {
    pub tz: &'static str,
    std: i64, // seconds east of UTC
    dst: Option<(i64, Rule, Rule)>, // offset, start, end
}
const fn fixed(tz: &'static str, std: i64) -> Zone {
    Zone { tz, std, dst: None }
}
const fn r(month: i64, week: i64, hour: i64) -> Rule {
    Rule { month, week, hour }
}
pub const ZONES: [Zone; 10] = [
    fixed("UTC0", 0),
    Zone { tz: "EST5EDT,M3.2.0,M11.1.0", std: -5 * 3600, dst: Some((-4 * 3600, r(3, 2, 2), r(11, 1, 2))) },
    fixed("XXX-14", 14 * 3600),
    fixed("YYY12", -12 * 3600),
    fixed("IST-5:30", 19800),
    Zone { tz: "CET-1CEST,M3.5.0,M10.5.0/3", std: 3600, dst: Some((7200, r(3, 5, 2), r(10, 5, 3))) },
    Zone { tz: "AEST-10AEDT,M10.1.0,M4.1.0/3", std: 36000, dst: Some((39600, r(10, 1, 2), r(4, 1, 3))) },
    fixed("NPT-5:45", 20700),
    fixed("ZZZ9:30", -34200),
    Zone { tz: "LHST-10:30LHDT-11,M10.1.0,M4.1.0", std: 37800, dst: Some((39600, r(10, 1, 2), r(4, 1, 2))) },
];

/// Wall-clock seconds (as if UTC) at which a rule fires in a year.
fn fires(y: i64, r: Rule) -> i64 {
    let weekday = |d: i64| (days_from_civil(y, r.month, d) + 4).rem_euclid(7); // 0 is Sunday
    let first = 1 + (7 - weekday(1)) % 7;
    let mut d = first + 7 * (r.week - 1);
    while d > days_in_month(y, r.month) {
        d -= 7;
    }
    instant(y, r.month, d, r.hour, 0, 0)
}

impl Zone {
    pub fn offset(&self, t: i64) -> i64 {
        match self.dst {
            None => self.std,
            Some((dst, start, end)) => {
                let y = civil(t + self.std).0;
                let (s, e) = (fires(y, start) - self.std, fires(y, end) - dst);
                let on = if s < e { t >= s && t < e } else { t >= s || t < e };
                if on { dst } else { self.std }
            }
        }
    }
}

/// How an instant is shown in a zone when it is now `now`.
pub fn shown(t: i64, now: i64, z: &Zone) -> String {
    let (y, mo, d, h, mi, _) = civil(t + z.offset(t));
    let this = civil(now + z.offset(now)).0;
    let month = MONTHS[mo as usize - 1];
    if y == this {
        format!("{} {:02} {:02}:{:02}", month, d, h, mi)
    } else {
        format!("{} {:02}  {}", month, d, y)
    }
}

fn check(t: i64, now: i64, z: &Zone, nsec: i32) -> R {
    crate::sys::set_now(now);
    let ts = Timespec::new(t, nsec);
    ensure_eq!(ts.into_utc_display().to_string(), shown(t, now, &ZONES[0]), "UTC display of {} at {} (TZ={})", t, now, z.tz);
    if z.dst.is_some() && t.min(now) < 2 * 366 * 86400 {
        // the C library does not apply daylight-saving rules to years before 1970 as it does later
        return Ok(());
    }
    ensure_eq!(ts.into_local_display().to_string(), shown(t, now, z), "local display of {} at {} (TZ={})", t, now, z.tz);
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "the instant or the clock is within a day of a year, month or daylight-saving boundary".into();
    c.assumptions = vec![
        "zones are POSIX TZ rules, evaluated by the C library for the code and by the checker's own calendar for the oracle; instants are in the years 1 to 500 million, and from 1972 on in zones with daylight-saving time".into(),
        "the wall clock is the checker's (clock_gettime is interposed); it does not move between creating a display and printing it".into(),
    ];
    let names: [[&'static str; 3]; 10] = [
        ["year_ends", "clock_steps", "calendar"],
        ["year_ends_ny", "clock_steps_ny", "calendar_ny"],
        ["year_ends_p14", "clock_steps_p14", "calendar_p14"],
        ["year_ends_m12", "clock_steps_m12", "calendar_m12"],
        ["year_ends_in", "clock_steps_in", "calendar_in"],
        ["year_ends_ce", "clock_steps_ce", "calendar_ce"],
        ["year_ends_au", "clock_steps_au", "calendar_au"],
        ["year_ends_np", "clock_steps_np", "calendar_np"],
        ["year_ends_m930", "clock_steps_m930", "calendar_m930"],
        ["year_ends_lh", "clock_steps_lh", "calendar_lh"],
    ];
    let nz = c.by_tier(7, 10);
    let quarter = 900;
    for (zi, z) in ZONES[..nz].iter().enumerate() {
        crate::sys::set_tz(z.tz);
        ensure_zone(z);
        let span: i64 = c.by_tier(15 * 4, 27 * 4);
        let years: Vec<i64> = c.by_tier(vec![2015, 2016, 2023], vec![1970, 1999, 2000, 2014, 2015, 2016, 2023, 2037, 2038]);
        // both the clock and the instant around a year end, seen from every zone
        c.explore(names[zi][0], &format!("clock and instant at every quarter of an hour around year ends, TZ={}", z.tz), Opt::default(), &|ch| {
            let y = *ch.of(&years);
            let base = instant(y + 1, 1, 1, 0, 0, 0);
            let step = |ch: &mut Ch| -> i64 { (ch.pick(2 * span as usize + 1) as i64 - span) * quarter };
            let now = base + step(ch) - ch.pick(2) as i64;
            ch.state(&now);
            ch.nontrivial();
            for dy in [-1i64, 0, 1] {
                let tb = instant(y + 1 + dy, 1, 1, 0, 0, 0);
                for k in (-span..=span).step_by(2) {
                    for e in [-1, 0] {
                        check(tb + k * quarter + e, now, z, 999_999_999)?;
                        ch.step();
                    }
                }
            }
            ch.outcome(&shown(now, now, z));
            ch.note(|| format!("now {} in {}: {}", now, z.tz, shown(now, now, z)));
            Ok(())
        });
        // the clock at every year end of a long range, the instant drawn from a set of offsets from it
        let range = c.by_tier((1990, 2040), (1902, 2200));
        c.explore(names[zi][1], &format!("the clock at the edges of every year {:?} and the instant at offsets from a second to centuries, TZ={}", range, z.tz), Opt::default(), &|ch| {
            let y = range.0 + ch.pick((range.1 - range.0) as usize) as i64;
            let local0 = instant(y, 1, 1, 0, 0, 0) - z.std;
            let now = *ch.of(&[local0, local0 - 1, instant(y, 1, 1, 0, 0, 0), instant(y, 1, 1, 0, 0, 0) - 1, instant(y, 6, 30, 12, 0, 0)]);
            ch.state(&now);
            ch.nontrivial();
            for d in [0i64, 1, 59, 60, 3600, 43200, 86399, 86400, 31 * 86400, 180 * 86400, 365 * 86400 - 1, 365 * 86400, 366 * 86400, 10 * 365 * 86400, 400 * 365 * 86400] {
                check(now + d, now, z, 0)?;
                check(now - d, now, z, 0)?;
                ch.step();
            }
            ch.outcome(&shown(now, now, z));
            Ok(())
        });
        // every day and minute of a leap year and a plain year
        c.explore(names[zi][2], &format!("every half hour of two years as the instant (every minute on days of daylight-saving changes), with the clock in the same and in another year, TZ={}", z.tz), Opt::default(), &|ch| {
            let y = *ch.of(&[2015i64, 2016]);
            let mo = 1 + ch.pick(12) as i64;
            let now = instant(*ch.of(&[2015i64, 2016]), 7, 2, 12, 0, 0);
            ch.state(&(y, mo, now));
            ch.nontrivial();
            for d in 1..=days_in_month(y, mo) {
                let t0 = instant(y, mo, d, 0, 0, 0);
                let fine = z.offset(t0 - 86400) != z.offset(t0 + 2 * 86400);
                let step = if fine { 60 } else { 1800 };
                for t in (t0..t0 + 86400).step_by(step) {
                    check(t, now, z, 0)?;
                    ch.step();
                }
            }
            ch.outcome(&(y, mo, now));
            Ok(())
        });
    }
    crate::sys::set_tz("UTC");
    c.explore("far_years", "the first, middle and last second of every year from 1 to 9999, in UTC", Opt::default(), &|ch| {
        let y = 1 + ch.pick(9999) as i64;
        ch.state(&y);
        ch.nontrivial();
        let now = instant(2015, 6, 17, 0, 0, 0);
        for t in [instant(y, 1, 1, 0, 0, 0), instant(y, 6, 15, 12, 30, 0), instant(y, 12, 31, 23, 59, 59)] {
            check(t, now, &ZONES[0], 0)?;
            check(now, t, &ZONES[0], 0)?;
            ch.step();
        }
        ch.outcome(&y);
        Ok(())
    });
    let farthest = c.by_tier(40_000u32, 400_000);
    c.explore("beyond", &format!("every year from 10000 to {}, and times at a distance of every power of two seconds up to the 54th, in UTC", farthest), Opt::default(), &|ch| {
        let now = instant(2015, 6, 17, 0, 0, 0);
        let t = if ch.flag() {
            let y = 10_000 + ch.pick(farthest as usize - 9_999) as i64;
            *ch.of(&[instant(y, 1, 1, 0, 0, 0), instant(y, 12, 31, 23, 59, 59)])
        } else {
            (1i64 << ch.pick(55)) + *ch.of(&[-1, 0, 1])
        };
        ch.state(&t);
        ch.nontrivial();
        ch.outcome(&t);
        check(t, now, &ZONES[0], 0)
    });
}

/// The C library must understand the zone as the oracle does, or the checker has no answer.
fn ensure_zone(z: &Zone) {
    for t in (1_400_000_000i64..1_480_000_000).step_by(1_234_567) {
        let off = unsafe {
            let tt = t as libc::time_t;
            let mut tm: libc::tm = std::mem::zeroed();
            libc::localtime_r(&tt, &mut tm);
            tm.tm_gmtoff as i64
        };
        if off != z.offset(t) {
            eprintln!("harness error: zone {} at {}: the C library says {}, the oracle {}", z.tz, t, off, z.offset(t));
            std::process::exit(2);
        }
    }
}
