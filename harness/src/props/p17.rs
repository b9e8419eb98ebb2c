//! P17 System times convert through the configured converter for every instant

use super::p16::{DEFAULT, F6, fields, stored};
use crate::engine::*;
use crate::exec::plain_archive;
use crate::zipparse::parse_mem_full;
use crate::ensure;
use chrono::{FixedOffset, NaiveDate, NaiveDateTime, Offset, TimeZone, Utc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use zippity::Builder;

/// Time zone that shifts its clock by `delta` every `period` seconds and back
#[derive(Clone, Debug)]
struct Tz {
    base: i32,
    delta: i32,
    period: i64,
}

#[derive(Clone, Debug)]
struct TzOff(i32, Tz);

impl Offset for TzOff {
    fn fix(&self) -> FixedOffset {
        FixedOffset::east_opt(self.0).unwrap()
    }
}

impl std::fmt::Display for TzOff {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl Tz {
    fn offset(&self, utc: i64) -> i32 {
        if utc.div_euclid(self.period) & 1 == 1 { self.base + self.delta } else { self.base }
    }
}

impl TimeZone for Tz {
    type Offset = TzOff;
    fn from_offset(o: &TzOff) -> Tz {
        o.1.clone()
    }
    fn offset_from_local_date(&self, d: &NaiveDate) -> chrono::MappedLocalTime<TzOff> {
        self.offset_from_local_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
    }
    fn offset_from_local_datetime(&self, d: &NaiveDateTime) -> chrono::MappedLocalTime<TzOff> {
        let t = d.and_utc().timestamp();
        let mut found: Vec<i32> = [self.base, self.base + self.delta]
            .into_iter()
            .filter(|o| self.offset(t - i64::from(*o)) == *o)
            .collect();
        found.dedup();
        match found[..] {
            [] => chrono::MappedLocalTime::None,
            [a] => chrono::MappedLocalTime::Single(TzOff(a, self.clone())),
            [a, b] => chrono::MappedLocalTime::Ambiguous(TzOff(a.max(b), self.clone()), TzOff(a.min(b), self.clone())),
            _ => unreachable!(),
        }
    }
    fn offset_from_utc_date(&self, d: &NaiveDate) -> TzOff {
        self.offset_from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
    }
    fn offset_from_utc_datetime(&self, d: &NaiveDateTime) -> TzOff {
        TzOff(self.offset(d.and_utc().timestamp()), self.clone())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conv {
    Utc,
    Fixed(i32),
    Dst { base: i32, delta: i32, period: i64 },
    /// Closure returning these fields, shifted in years by the number of calls
    Closure(F6),
    /// Closure with own UTC conversion
    OwnUtc,
}

/// Instant: seconds relative to the epoch and nanoseconds (towards the future)
pub type Inst = (i64, u32);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Conv(Conv),
    Add,
    /// entry, or-default, instant
    Set(u8, bool, Inst),
    SetFields(u8, F6),
    CloneBuilder,
}

fn inst() -> BoxedStrategy<Inst> {
    const Y1980: i64 = 315_532_800;
    const Y2108: i64 = 4_354_819_200;
    let nanos = prop_oneof![Just(0u32), Just(999_999_999), Just(1), 0u32..1_000_000_000];
    let near = prop_oneof![Just(Y1980), Just(Y2108), Just(0), Just(4_294_967_296), Just(2_147_483_648), Just(951_782_400), Just(4_107_542_400)];
    let secs = prop_oneof![
        8 => Y1980..Y2108,
        4 => (near.clone(), -4i64..5).prop_map(|(a, b)| a + b),
        4 => (near, -86400i64..86401).prop_map(|(a, b)| a + b),
        2 => (0i64..128, 0i64..400, -3i64..4).prop_map(|(y, d, s)| Y1980 + y * 31_557_600 + d * 86400 + s),
        1 => Just(i64::MIN),
        1 => Just(i64::MAX),
        // around the limits of chrono
        2 => (prop_oneof![Just(8_210_266_876_799i64), Just(-8_334_601_228_800)], prop_oneof![-3i64..4, -200_000i64..200_000]).prop_map(|(a, b)| a + b),
        2 => (any::<i64>(), 0u8..63).prop_map(|(a, s)| a >> s),
        1 => (Y1980..Y2108).prop_map(|a| -a),
    ];
    (secs, nanos).boxed()
}

fn offset() -> BoxedStrategy<i32> {
    prop_oneof![Just(0i32), Just(86399), Just(-86399), -86399i32..86400, (-26i32..27).prop_map(|x| x * 1800)].boxed()
}

fn strat(_: &Ctx) -> BoxedStrategy<Vec<Step>> {
    let conv = prop_oneof![
        2 => Just(Conv::Utc),
        3 => offset().prop_map(Conv::Fixed),
        2 => (-80_000i32..80_000, prop_oneof![Just(3600i32), Just(-3600), -6000i32..6000], prop_oneof![Just(15_778_800i64), 1000i64..40_000_000])
            .prop_map(|(base, delta, period)| Conv::Dst { base, delta, period }),
        2 => fields().prop_map(Conv::Closure),
        1 => Just(Conv::OwnUtc),
    ];
    (
        proptest::option::weighted(0.8, conv.clone()),
        proptest::collection::vec(
            prop_oneof![
                2 => conv.prop_map(Step::Conv),
                4 => Just(Step::Add),
                8 => (any::<u8>(), any::<bool>(), inst()).prop_map(|(a, b, c)| Step::Set(a, b, c)),
                1 => (any::<u8>(), fields()).prop_map(|(a, b)| Step::SetFields(a, b)),
                1 => Just(Step::CloneBuilder),
            ],
            1..16,
        ),
    )
        .prop_map(|(c, mut v)| {
            v.insert(0, Step::Add);
            if let Some(c) = c {
                v.insert(0, Step::Conv(c));
            }
            v
        })
        .boxed()
}

fn to_system(i: Inst) -> Option<SystemTime> {
    let base = if i.0 >= 0 {
        UNIX_EPOCH.checked_add(Duration::from_secs(i.0 as u64))
    } else {
        UNIX_EPOCH.checked_sub(Duration::from_secs(i.0.unsigned_abs()))
    };
    base?.checked_add(Duration::from_nanos(i.1.into()))
}

/// Civil date and time of seconds since the epoch, in a proleptic gregorian calendar.
pub fn civil(secs: i128) -> (i128, u32, u32, u32, u32, u32) {
    let days = secs.div_euclid(86400);
    let rest = secs.rem_euclid(86400) as u32;
    // Whole 400 year cycles, then year by year
    let cycles = days.div_euclid(146_097);
    let mut d = days.rem_euclid(146_097);
    let mut year = 1970 + cycles * 400;
    let leap = |y: i128| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= 365 + i128::from(leap(year)) {
        d -= 365 + i128::from(leap(year));
        year += 1;
    }
    let mut month = 1;
    loop {
        let len = i128::from(crate::model::days_in_month(if leap(year) { 2000 } else { 2001 }, month));
        if d < len {
            break;
        }
        d -= len;
        month += 1;
    }
    (year, month, d as u32 + 1, rest / 3600, rest / 60 % 60, rest % 60)
}

pub fn clamp_year(c: (i128, u32, u32, u32, u32, u32)) -> F6 {
    (c.0.clamp(-1_000_000, 1_000_000) as i32, c.1, c.2, c.3, c.4, c.5)
}

#[derive(Clone)]
enum MConv {
    None,
    Offset(i32),
    Dst(Tz),
    Closure(F6, Rc<RefCell<Vec<SystemTime>>>),
    Own(Rc<RefCell<Vec<SystemTime>>>),
}

fn check(c: &Vec<Step>, cov: &mut Cov) -> Res {
    let mut b: Builder<Vec<u8>> = Builder::new();
    let mut conv = MConv::None;
    let mut model: Vec<(F6, MConv)> = Vec::new();
    let mut left = Vec::new();
    let mut stats = [0u32; 3];
    for s in c {
        match s {
            Step::Conv(c) => {
                conv = match c {
                    Conv::Utc => {
                        b.system_time_timezone(Utc);
                        MConv::Offset(0)
                    }
                    Conv::Fixed(o) => {
                        b.system_time_timezone(FixedOffset::east_opt(*o).unwrap());
                        MConv::Offset(*o)
                    }
                    Conv::Dst { base, delta, period } => {
                        let tz = Tz { base: *base, delta: *delta, period: *period };
                        b.system_time_timezone(tz.clone());
                        MConv::Dst(tz)
                    }
                    Conv::Closure(f) => {
                        let f = *f;
                        let log = Rc::new(RefCell::new(Vec::new()));
                        let l = Rc::clone(&log);
                        b.system_time_converter(move |t| {
                            l.borrow_mut().push(t);
                            f
                        });
                        MConv::Closure(f, log)
                    }
                    Conv::OwnUtc => {
                        let log = Rc::new(RefCell::new(Vec::new()));
                        let l = Rc::clone(&log);
                        b.system_time_converter(move |t| {
                            l.borrow_mut().push(t);
                            let s = match t.duration_since(UNIX_EPOCH) {
                                Ok(d) => i128::from(d.as_secs()),
                                Err(e) => -(e.duration().as_nanos().div_ceil(1_000_000_000) as i128),
                            };
                            clamp_year(civil(s))
                        });
                        MConv::Own(log)
                    }
                };
            }
            Step::Add => {
                let n = model.len();
                b.add_entry(format!("e{n}"), vec![n as u8; n]).map_err(|e| format!("valid addition failed: {e}"))?;
                model.push((DEFAULT, conv.clone()));
            }
            Step::CloneBuilder => {
                let c = b.clone();
                let old = std::mem::replace(&mut b, c);
                left.push((old, model.clone()));
            }
            Step::SetFields(i, f) => {
                let i = usize::from(*i) % model.len();
                let be = &mut b.get_entries_mut()[i];
                if be.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some() {
                    if let Some(s) = stored(*f) {
                        model[i].0 = s;
                    }
                }
            }
            Step::Set(i, or_default, t) => {
                let Some(system) = to_system(*t) else {
                    continue;
                };
                let i = usize::from(*i) % model.len();
                let utc = i128::from(t.0);
                let expected = match &model[i].1 {
                    MConv::None => None,
                    MConv::Offset(o) => stored(clamp_year(civil(utc + i128::from(*o)))),
                    MConv::Dst(tz) => stored(clamp_year(civil(utc + i128::from(tz.offset(t.0))))),
                    MConv::Own(_) => stored(clamp_year(civil(utc))),
                    MConv::Closure(f, _) => stored(*f),
                };
                let be = &mut b.get_entries_mut()[i];
                if *or_default {
                    be.datetime_system_or_default(system);
                    model[i].0 = expected.unwrap_or(DEFAULT);
                    stats[1] += u32::from(expected.is_none());
                } else {
                    let ok = be.datetime_system(system).is_some();
                    ensure!(
                        ok == expected.is_some(),
                        "setting of instant {t:?} reports {}, {expected:?} expected",
                        if ok { "success" } else { "failure" }
                    );
                    if let Some(e) = expected {
                        model[i].0 = e;
                    }
                    stats[2] += u32::from(expected.is_none());
                }
                stats[0] += u32::from(expected.is_some());
                if let MConv::Closure(_, log) | MConv::Own(log) = &model[i].1 {
                    let got = std::mem::take(&mut *log.borrow_mut());
                    ensure!(
                        !got.is_empty() && got.iter().all(|x| *x == system),
                        "converter was called with {got:?} for {system:?}"
                    );
                }
                cov.label_if(t.0 > 8_210_266_876_799 || t.0 < -8_334_601_228_800, "out of range of chrono");
                cov.label_if(matches!(&model[i].1, MConv::Dst(_)), "zone with shifts");
                cov.label_if(matches!(&model[i].1, MConv::None), "no converter");
            }
        }
    }
    for (b, model) in std::iter::once((b, model)).chain(left) {
        let p = parse_mem_full(&plain_archive(b)?)?;
        for (i, e) in p.entries.iter().enumerate() {
            ensure!(
                e.datetime() == model[i].0,
                "entry {i} has time {:?}, {:?} expected",
                e.datetime(),
                model[i].0
            );
        }
    }
    cov.label_if(stats[0] > 0, "time set");
    cov.label_if(stats[1] > 0, "fallback to default");
    cov.label_if(stats[2] > 0, "plain setter refused");
    cov.nontrivial(stats[0] > 0);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P17",
        rule: "Case = history of converter changes (UTC, fixed offsets, a zone with clock shifts, closures), additions, clones and settings of instants over the whole range of SystemTime. \
Non-trivial: at least one instant was converted to a time in range.",
        assumptions: &["own calendar arithmetic of the oracle"],
        parts: vec![Box::new(Part { name: "instants", quick: 900_000, thorough: 90_000_000, strat, check })],
    }
}
