//! P16 Timestamps by fields, P18 types and permissions

use crate::engine::*;
use crate::exec::plain_archive;
use crate::model::*;
use crate::zipparse::parse_mem_full;
use crate::{ensure, fail};
use chrono::NaiveDate;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::PermissionsExt as _;
use zippity::{Builder, BuilderEntry};

pub type F6 = (i32, u32, u32, u32, u32, u32);

pub const DEFAULT: F6 = (1980, 1, 1, 0, 0, 0);

/// Fields as they have to be stored, None = out of range
pub fn stored(f: F6) -> Option<F6> {
    let (y, mo, d, h, mi, s) = f;
    let ok = (1980..=2107).contains(&y) && (1..=12).contains(&mo) && (1..=31).contains(&d) && h <= 23 && mi <= 59 && s <= 59;
    ok.then_some((y, mo, d, h, mi, s - s % 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Fields(F6),
    FieldsOrDefault(F6),
    /// Years of chrono's type reach from -262143 to 262142; last is nanoseconds, over 10^9 for a leap second
    Naive(F6, u32),
    NaiveOrDefault(F6, u32),
    System(u64),
    SystemOrDefault(u64),
    Unix(u32),
    Permissions(u32),
    ReadOnly(bool),
    File,
    Dir,
    Sym,
    Crc,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ents: Vec<(Name, Content)>,
    /// Operations on entries; those with `early` are applied to the result of the addition if they come first
    ops: Vec<(u8, Op)>,
    /// The operations up to here go through references returned by additions (when possible), later ones through the map
    clone_at: Option<u8>,
}

fn odd_u32(hi: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => hi..hi + 3,
        2 => (0..hi, prop_oneof![Just(32u32), Just(64), Just(128), Just(256), Just(65536), Just(1 << 31), Just(16)])
            .prop_map(move |(a, b)| if a + b < hi { hi } else { a + b }),
        1 => Just(u32::MAX),
        2 => hi..u32::MAX,
    ]
    .boxed()
}

/// Fields, usually with at most one out of range. Days of a month are either valid, or out of range for every month.
pub fn fields() -> BoxedStrategy<F6> {
    let year = prop_oneof![
        Just(1979i32),
        Just(2108),
        (1980i32..2108, prop_oneof![Just(128i32), Just(-128), Just(65536), Just(-65536), Just(256), Just(-1980)]).prop_map(|(a, b)| a + b),
        Just(0),
        Just(i32::MIN),
        Just(i32::MAX),
        any::<i32>().prop_filter("out of range", |y| !(1980..2108).contains(y)),
        1900i32..1980,
    ]
    .prop_map(|y| if (1980..2108).contains(&y) { y + 65536 } else { y });
    let bad = prop_oneof![
        3 => year.prop_map(|y| (0u8, y as u32)),
        1 => odd_u32(13).prop_map(|x| (1, x)),
        1 => Just((1, 0)),
        1 => odd_u32(32).prop_map(|x| (2, x)),
        1 => Just((2, 0)),
        1 => odd_u32(24).prop_map(|x| (3, x)),
        1 => odd_u32(60).prop_map(|x| (4, x)),
        1 => odd_u32(60).prop_map(|x| (5, x)),
    ];
    (valid_fields(), prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(bad, 1..3)])
        .prop_map(|(mut f, bads)| {
            for (i, x) in bads {
                match i {
                    0 => f.0 = x as i32,
                    1 => f.1 = x,
                    2 => f.2 = x,
                    3 => f.3 = x,
                    4 => f.4 = x,
                    _ => f.5 = x,
                }
            }
            f
        })
        .boxed()
}

fn naive() -> BoxedStrategy<(F6, u32)> {
    let year = prop_oneof![
        6 => Just(None),
        2 => prop_oneof![Just(1979i32), Just(2108), Just(-262_000), Just(262_000), -262_000i32..262_000, 1900i32..2200].prop_map(Some),
    ];
    (valid_fields(), year, prop_oneof![Just(0u32), Just(999_999_999), 0u32..2_000_000_000])
        .prop_map(|(mut f, y, n)| {
            if let Some(y) = y {
                f.0 = y;
                f.2 = f.2.min(28);
            }
            (f, n)
        })
        .boxed()
}

fn ops(time: u32, perm: u32) -> BoxedStrategy<Op> {
    prop_oneof![
        3 * time => fields().prop_map(Op::Fields),
        2 * time => fields().prop_map(Op::FieldsOrDefault),
        2 * time => naive().prop_map(|(a, b)| Op::Naive(a, b)),
        2 * time => naive().prop_map(|(a, b)| Op::NaiveOrDefault(a, b)),
        // Without a converter
        1 => any::<u64>().prop_map(|x| Op::System(x >> 16)),
        1 => any::<u64>().prop_map(|x| Op::SystemOrDefault(x >> 16)),
        2 * perm => any::<u32>().prop_map(Op::Unix),
        2 * perm => (0u32..0o10000).prop_map(Op::Unix),
        2 * perm => any::<u32>().prop_map(Op::Permissions),
        2 * perm => any::<bool>().prop_map(Op::ReadOnly),
        2 * perm => Just(Op::File),
        2 * perm => Just(Op::Dir),
        2 * perm => Just(Op::Sym),
        1 => Just(Op::Crc),
    ]
    .boxed()
}

fn case(time: u32, perm: u32) -> BoxedStrategy<Case> {
    let few = (
        proptest::collection::vec((small_name(), content_strategy(400)), 1..6),
        proptest::collection::vec((any::<u8>(), ops(time, perm)), 0..14),
    );
    let many = (
        proptest::collection::vec((small_name(), content_strategy(5)), 30..260),
        proptest::collection::vec((any::<u8>(), ops(time, perm)), 0..60),
    );
    (prop_oneof![59 => few, 1 => many], proptest::option::weighted(0.3, any::<u8>()))
        .prop_map(|((ents, ops), clone_at)| Case { ents, ops, clone_at })
        .boxed()
}

fn strat16(_: &Ctx) -> BoxedStrategy<Case> {
    case(6, 1)
}

fn strat18(_: &Ctx) -> BoxedStrategy<Case> {
    case(1, 6)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Perm {
    Rw,
    Ro,
    Num(u32),
}

#[derive(Clone, Debug)]
struct Model {
    time: F6,
    ty: u32,
    perm: Perm,
    crc: bool,
}

impl Model {
    fn mode(&self) -> u32 {
        let x = if self.ty == 0o040_000 { 0o111 } else { 0 };
        self.ty
            | if self.ty == 0o120_000 {
                0o777
            } else {
                match self.perm {
                    Perm::Rw => 0o644 | x,
                    Perm::Ro => 0o444 | x,
                    Perm::Num(n) => n & 0o777,
                }
            }
    }
}

fn naive_of(f: F6, nanos: u32) -> chrono::NaiveDateTime {
    NaiveDate::from_ymd_opt(f.0, f.1, f.2)
        .and_then(|d| d.and_hms_nano_opt(f.3, f.4, f.5, if f.5 == 59 { nanos } else { nanos % 1_000_000_000 }))
        .unwrap_or_else(|| panic!("generator made invalid date {f:?}"))
}

fn apply(be: &mut BuilderEntry<Vec<u8>>, m: &mut Model, op: &Op, crc: u32, times: bool, stats: &mut [u32; 3]) -> Res {
    let mut plain = |ok: bool, f: Option<F6>, m: &mut Model| -> Res {
        let expected = f.and_then(stored);
        if times {
            ensure!(ok == expected.is_some(), "{op:?} reports {}", if ok { "success" } else { "failure" });
        }
        match expected {
            Some(t) => {
                m.time = t;
                stats[0] += 1;
            }
            None => stats[1] += 1,
        }
        Ok(())
    };
    match *op {
        Op::Fields(f) => {
            let ok = be.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
            plain(ok, Some(f), m)?;
        }
        Op::Naive(f, n) => {
            let ok = be.datetime(naive_of(f, n)).is_some();
            plain(ok, Some(f), m)?;
        }
        Op::System(s) => {
            let ok = be.datetime_system(std::time::UNIX_EPOCH + std::time::Duration::from_millis(s)).is_some();
            plain(ok, None, m)?;
        }
        Op::FieldsOrDefault(f) => {
            be.datetime_fields_or_default(f.0, f.1, f.2, f.3, f.4, f.5);
            m.time = stored(f).unwrap_or(DEFAULT);
            stats[2] += u32::from(stored(f).is_none());
        }
        Op::NaiveOrDefault(f, n) => {
            be.datetime_or_default(naive_of(f, n));
            m.time = stored(f).unwrap_or(DEFAULT);
            stats[2] += u32::from(stored(f).is_none());
        }
        Op::SystemOrDefault(s) => {
            be.datetime_system_or_default(std::time::UNIX_EPOCH + std::time::Duration::from_millis(s));
            m.time = DEFAULT;
            stats[2] += 1;
        }
        Op::Unix(p) => {
            be.unix_permissions(p);
            m.perm = Perm::Num(p);
        }
        Op::Permissions(p) => {
            be.permissions(&std::fs::Permissions::from_mode(p));
            m.perm = Perm::Num(p);
        }
        Op::ReadOnly(r) => {
            be.readonly(r);
            m.perm = if r { Perm::Ro } else { Perm::Rw };
        }
        Op::File => {
            be.file();
            m.ty = 0o100_000;
        }
        Op::Dir => {
            be.directory();
            m.ty = 0o040_000;
        }
        Op::Sym => {
            be.symlink();
            m.ty = 0o120_000;
        }
        Op::Crc => {
            be.crc32(crc);
            m.crc = true;
        }
    }
    Ok(())
}

fn run(c: &Case, times: bool, modes: bool, cov: &mut Cov) -> Res {
    let names = unique_names(c.ents.iter().map(|e| &e.0));
    let n = names.len();
    let mut b: Builder<Vec<u8>> = Builder::new();
    let mut model = Vec::new();
    let mut left = None;
    let mut stats = [0; 3];
    // Operations before the first one that goes back to an earlier entry are applied directly to added entries
    let mut next = 0;
    for (i, name) in names.iter().enumerate() {
        let be = b.add_entry(name.clone(), c.ents[i].1.bytes()).map_err(|e| format!("valid addition failed: {e}"))?;
        let mut m = Model { time: DEFAULT, ty: 0o100_000, perm: Perm::Rw, crc: false };
        while let Some((e, op)) = c.ops.get(next) {
            if usize::from(*e) % n != i || usize::from(*e) >= 128 {
                break;
            }
            apply(be, &mut m, op, c.ents[i].1.crc(), times, &mut stats)?;
            next += 1;
        }
        model.push(m);
    }
    for (k, (e, op)) in c.ops.iter().enumerate().skip(next) {
        if c.clone_at.is_some_and(|x| usize::from(x) % c.ops.len() == k) {
            left = Some((b.clone(), model.clone()));
        }
        let i = usize::from(*e) % n;
        let Some(be) = b.get_entries_mut().get_mut(&names[i]) else {
            fail!("entry {:?} is missing", names[i]);
        };
        apply(be, &mut model[i], op, c.ents[i].1.crc(), times, &mut stats)?;
    }
    // Without any metadata
    let mut plain: Builder<Vec<u8>> = Builder::new();
    for (i, name) in names.iter().enumerate() {
        plain.add_entry(name.clone(), c.ents[i].1.bytes()).map_err(|e| format!("valid addition failed: {e}"))?;
    }
    let plain = plain_archive(plain)?;
    cov.label_if(left.is_some(), "builder cloned in the middle");
    for (b, model) in [(b, model)].into_iter().chain(left) {
        let bytes = plain_archive(b)?;
        let p = parse_mem_full(&bytes)?;
        ensure!(p.entries.len() == n, "archive has {} entries, not {n}", p.entries.len());
        let mut masked = bytes.clone();
        let mut masked_plain = plain.clone();
        ensure!(bytes.len() == plain.len(), "metadata change size of the archive from {} to {}", plain.len(), bytes.len());
        for (i, e) in p.entries.iter().enumerate() {
            if times {
                ensure!(
                    e.datetime() == model[i].time,
                    "entry {i} has time {:?}, {:?} was requested",
                    e.datetime(),
                    model[i].time
                );
            }
            if modes {
                ensure!(
                    e.mode() == model[i].mode(),
                    "entry {i} has mode {:o}, {:o} was requested ({:?})",
                    e.mode(),
                    model[i].mode(),
                    model[i]
                );
                ensure!(e.host == 3, "host system is {}, unix attributes would be ignored", e.host);
            }
            for m in [&mut masked, &mut masked_plain] {
                let (h, cd) = (e.header_off as usize, e.cd_off as usize);
                m[h + 10..h + 14].fill(0);
                m[cd + 12..cd + 16].fill(0);
                m[cd + 38..cd + 42].fill(0);
            }
        }
        ensure!(masked == masked_plain, "metadata affect other parts of the archive than times and attributes");
    }
    if times {
        cov.label_if(stats[0] > 0, "time set");
        cov.label_if(stats[1] > 0, "plain setter refused");
        cov.label_if(stats[2] > 0, "fallback to default");
        cov.nontrivial(stats.iter().filter(|x| **x > 0).count() >= 2);
    }
    Ok(())
}

fn check16(c: &Case, cov: &mut Cov) -> Res {
    run(c, true, false, cov)
}

fn check18(c: &Case, cov: &mut Cov) -> Res {
    let ty = c.ops.iter().any(|(_, o)| matches!(o, Op::File | Op::Dir | Op::Sym));
    let pm = c.ops.iter().any(|(_, o)| matches!(o, Op::Unix(_) | Op::Permissions(_) | Op::ReadOnly(_)));
    cov.label_if(c.ops.iter().any(|(_, o)| matches!(o, Op::Sym)), "symlink");
    cov.label_if(c.ops.iter().any(|(_, o)| matches!(o, Op::Unix(p) | Op::Permissions(p) if *p > 0o777)), "bits over 0777");
    cov.nontrivial(ty && pm);
    run(c, false, true, cov)
}

/// All field values one by one
fn strat_sweep(_: &Ctx) -> BoxedStrategy<(u16, u16)> {
    (any::<u16>(), any::<u16>()).boxed()
}

/// Every pair of DOS words that stands for a valid time is reachable and is stored as is
fn check_sweep(c: &(u16, u16), cov: &mut Cov) -> Res {
    let f = (
        i32::from(c.0 >> 9) + 1980,
        u32::from((c.0 >> 5) & 15),
        u32::from(c.0 & 31),
        u32::from(c.1 >> 11),
        u32::from((c.1 >> 5) & 63),
        u32::from(c.1 & 31) * 2,
    );
    // Days beyond the end of the month are not specified
    if (1..=12).contains(&f.1) && f.2 > days_in_month(f.0, f.1) {
        return Ok(());
    }
    let mut b: Builder<Vec<u8>> = Builder::new();
    let be = b.add_entry("x".to_string(), b"x".to_vec()).map_err(|e| e.to_string())?;
    let expected = stored(f);
    let ok = be.datetime_fields(f.0, f.1, f.2, f.3, f.4, f.5).is_some();
    ensure!(ok == expected.is_some(), "setting {f:?} reports {}", if ok { "success" } else { "failure" });
    let p = parse_mem_full(&plain_archive(b)?)?;
    ensure!(p.entries[0].datetime() == expected.unwrap_or(DEFAULT), "{f:?} is stored as {:?}", p.entries[0].datetime());
    ensure!(!ok || (p.entries[0].date, p.entries[0].time) == *c, "words of {f:?} differ");
    cov.nontrivial(ok);
    cov.label_if(ok, "valid");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P16",
        rule: "Case = entries and a sequence of time setters (fields in and out of range in each position, chrono date-times with years over its whole range and leap seconds, \
system times without a converter) and other metadata setters, through references and the entry map, with clones. Non-trivial: at least two of: time set, plain setter refused, fallback used. \
Part words: pairs of DOS date/time words; non-trivial: a valid time.",
        assumptions: &["days 29-31 in months that don't have them are not judged (documentation doesn't say)"],
        parts: vec![
            Box::new(Part { name: "setters", quick: 500_000, thorough: 50_000_000, strat: strat16, check: check16 }),
            Box::new(Part { name: "words", quick: 700_000, thorough: 70_000_000, strat: strat_sweep, check: check_sweep }),
        ],
    }
}

pub fn property_p18() -> Property {
    Property {
        id: "P18",
        rule: "Case = entries and a sequence of type, permission (numeric over all 32 bits, std Permissions, read-only), time and CRC setters on them, through references and the entry map, with clones. \
Non-trivial: both a type and permissions are set.",
        assumptions: &["only the unix half of the external attributes is judged"],
        parts: vec![Box::new(Part { name: "modes", quick: 500_000, thorough: 50_000_000, strat: strat18, check: check18 })],
    }
}
