//! Case vocabulary shared by properties: names, contents, metadata edits, and their generators.

use crate::engine::mix;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Content {
    pub len: u32,
    pub seed: u32,
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        fill_pattern(u64::from(self.seed), 0, &mut v);
        v
    }
    pub fn crc(&self) -> u32 {
        crc32fast::hash(&self.bytes())
    }
}

/// Byte pattern of an entry, defined for all positions.
/// Seeds below 16 are special: zeros, 0xff, ZIP signatures all over.
pub fn fill_pattern(seed: u64, pos: u64, out: &mut [u8]) {
    match seed {
        0 => out.fill(0),
        1 => out.fill(0xff),
        2..=7 => {
            let sig: &[u8] = match seed {
                2 => b"PK\x05\x06\0\0\0\0",
                3 => b"PK\x01\x02",
                4 => b"PK\x07\x08",
                5 => b"PK\x06\x07",
                6 => b"PK\x03\x04",
                _ => b"PK\x06\x06",
            };
            for (i, b) in out.iter_mut().enumerate() {
                *b = sig[((pos + i as u64) % sig.len() as u64) as usize];
            }
        }
        _ => {
            let mut i = 0;
            while i < out.len() {
                let p = pos + i as u64;
                let w = mix(seed ^ (p / 8).wrapping_mul(0x1234_5678_9abc_def1)).to_le_bytes();
                let mut k = (p % 8) as usize;
                while k < 8 && i < out.len() {
                    out[i] = w[k];
                    k += 1;
                    i += 1;
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Name {
    Lit(String),
    /// `unit` repeated, then `tail`; cut to at most 65535 bytes
    Rep(String, u32, String),
}

impl Name {
    pub fn text(&self) -> String {
        match self {
            Name::Lit(s) => s.clone(),
            Name::Rep(u, n, t) => {
                let mut s = u.repeat(*n as usize);
                s.push_str(t);
                cut(s, 65535)
            }
        }
    }
}

pub fn cut(mut s: String, max: usize) -> String {
    if s.len() > max {
        let mut m = max;
        while !s.is_char_boundary(m) {
            m -= 1;
        }
        s.truncate(m);
    }
    s
}

/// A name that is different from the given one, but similar
pub fn near(name: &str, kind: u8) -> String {
    let s = match kind % 14 {
        0 => format!("{name}/"),
        1 => name.to_uppercase(),
        2 => name.to_lowercase(),
        3 => name.trim_end_matches('/').to_string(),
        4 => format!("./{name}"),
        5 => format!("/{name}"),
        6 => format!("{name}\0"),
        7 => format!("{name} "),
        8 => name.replace('/', "\\"),
        9 => name.replace('é', "e\u{301}"),
        10 => name.chars().rev().collect(),
        11 => {
            let mut c: Vec<char> = name.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
        12 => format!("{name}//"),
        _ => format!("{name}{name}"),
    };
    cut(s, 65535)
}

/// Makes names unique (in order), keeping them within the limit
pub fn unique_names<'a>(names: impl Iterator<Item = &'a Name>) -> Vec<String> {
    let mut seen: HashSet<String> = HashSet::new();
    let mut out = Vec::new();
    for (i, n) in names.enumerate() {
        let mut t = n.text();
        let mut k = 0;
        while seen.contains(&t) {
            let suffix = format!("~{i}.{k}");
            t = cut(n.text(), 65535 - suffix.len()) + &suffix;
            k += 1;
        }
        seen.insert(t.clone());
        out.push(t);
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MetaOp {
    Fields(i32, u32, u32, u32, u32, u32),
    FieldsOrDefault(i32, u32, u32, u32, u32, u32),
    Unix(u32),
    ReadOnly(bool),
    File,
    Dir,
    Sym,
    /// `datetime_system()`, seconds since the epoch
    System(u32),
    /// `datetime_system_or_default()`
    SystemOrDefault(u32),
}

/// Converters of system times, `k` selects one
pub fn convert(k: u8, t: std::time::SystemTime) -> (i32, u32, u32, u32, u32, u32) {
    let s = t.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let h = mix(s ^ (u64::from(k) << 40));
    let f = |shift: u32, n: u64| ((h >> shift) % n) as u32;
    (1975 + f(0, 137) as i32, f(8, 12) + 1, f(16, 28) + 1, f(24, 24), f(32, 60), f(40, 60))
}

pub fn at_second(s: u32) -> std::time::SystemTime {
    std::time::UNIX_EPOCH + std::time::Duration::from_secs(s.into())
}

pub fn apply_meta<D: zippity::EntryData>(e: &mut zippity::BuilderEntry<D>, ops: &[MetaOp]) {
    for op in ops {
        match *op {
            MetaOp::Fields(a, b, c, d, f, g) => {
                let _ = e.datetime_fields(a, b, c, d, f, g);
            }
            MetaOp::FieldsOrDefault(a, b, c, d, f, g) => {
                e.datetime_fields_or_default(a, b, c, d, f, g);
            }
            MetaOp::Unix(p) => {
                e.unix_permissions(p);
            }
            MetaOp::ReadOnly(r) => {
                e.readonly(r);
            }
            MetaOp::File => {
                e.file();
            }
            MetaOp::Dir => {
                e.directory();
            }
            MetaOp::Sym => {
                e.symlink();
            }
            MetaOp::System(s) => {
                let _ = e.datetime_system(at_second(s));
            }
            MetaOp::SystemOrDefault(s) => {
                e.datetime_system_or_default(at_second(s));
            }
        }
    }
}

pub const READ: u32 = 8192;

pub fn len_strategy(max: u32) -> BoxedStrategy<u32> {
    let m = max;
    prop_oneof![
        3 => Just(0u32),
        2 => Just(1u32),
        6 => 0u32..40,
        5 => 0u32..600,
        4 => 0u32..3000,
        5 => (1u32..5, -3i32..4).prop_map(|(k, d)| (i64::from(k * READ) + i64::from(d)) as u32),
        3 => 0u32..45000,
    ]
    .prop_map(move |x| x.min(m))
    .boxed()
}

pub fn seed_strategy() -> BoxedStrategy<u32> {
    prop_oneof![2 => 0u32..8, 5 => 8u32..5000].boxed()
}

pub fn content_strategy(max: u32) -> BoxedStrategy<Content> {
    (len_strategy(max), seed_strategy())
        .prop_map(|(len, seed)| Content { len, seed })
        .boxed()
}

pub fn nonempty_content(max: u32) -> BoxedStrategy<Content> {
    content_strategy(max)
        .prop_map(|mut c| {
            c.len = c.len.max(1);
            c
        })
        .boxed()
}

fn any_text(max: usize) -> BoxedStrategy<String> {
    proptest::collection::vec(
        prop_oneof![
            6 => proptest::char::range('a', 'z'),
            2 => proptest::char::range(' ', '~'),
            2 => proptest::char::any(),
            1 => Just('/'),
            1 => Just('\0'),
            1 => Just('\\'),
            1 => Just('é'),
            1 => Just('𝄞'),
        ],
        0..max,
    )
    .prop_map(|v| v.into_iter().collect())
    .boxed()
}

/// Short names, for histories where names are not in focus
pub fn small_name() -> BoxedStrategy<Name> {
    prop_oneof![
        10 => any_text(12).prop_map(Name::Lit),
        2 => any_text(100).prop_map(Name::Lit),
        1 => Just(Name::Lit(String::new())),
        2 => ("[a-z]{1,3}", 50u32..400, "[a-z]{0,2}").prop_map(|(a, b, c)| Name::Rep(a, b, c)),
    ]
    .boxed()
}

/// All classes of names, including the longest possible ones
pub fn any_name() -> BoxedStrategy<Name> {
    prop_oneof![
        20 => small_name(),
        3 => any_text(60).prop_map(|s| Name::Lit(format!("{s}/"))),
        3 => proptest::string::string_regex("([a-z]{1,5}/){0,4}[a-z]{0,6}(\\.[a-z]{1,3})?").unwrap().prop_map(Name::Lit),
        1 => Just(Name::Lit("\u{feff}".into())),
        1 => Just(Name::Lit("../../x".into())),
        1 => Just(Name::Lit("/abs".into())),
        2 => (prop_oneof![Just("x".to_string()), Just("é".into()), Just("€".into()), Just("𝄞".into()), Just("ab/".into())],
              prop_oneof![65530u32..65540, 200u32..9000, Just(70000u32)], "[a-z]{0,3}")
            .prop_map(|(u, n, t)| { let l = u.len() as u32; Name::Rep(u, n / l + n % l, t) }),
    ]
    .boxed()
}

/// Name with some length over the READ size too; used sparingly, because it makes archives big
pub fn name_mix(long: u32) -> BoxedStrategy<Name> {
    if long == 0 {
        small_name()
    } else {
        prop_oneof![
            (100 - long) => small_name(),
            long => any_name(),
        ]
        .boxed()
    }
}

pub fn valid_fields() -> BoxedStrategy<(i32, u32, u32, u32, u32, u32)> {
    (
        prop_oneof![Just(1980i32), Just(2107), 1980i32..2108],
        prop_oneof![Just(1u32), Just(12), 1u32..13],
        prop_oneof![Just(1u32), Just(31), 1u32..32],
        prop_oneof![Just(0u32), Just(23), 0u32..24],
        prop_oneof![Just(0u32), Just(59), 0u32..60],
        prop_oneof![Just(0u32), Just(59), 0u32..60],
    )
        .prop_map(|(y, m, d, h, mi, s)| (y, m, d.min(days_in_month(y, m)), h, mi, s))
        .boxed()
}

pub fn days_in_month(y: i32, m: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 31,
    }
}

pub fn meta_ops(max: usize) -> BoxedStrategy<Vec<MetaOp>> {
    proptest::collection::vec(
        prop_oneof![
            2 => valid_fields().prop_map(|(a, b, c, d, e, f)| MetaOp::Fields(a, b, c, d, e, f)),
            1 => valid_fields().prop_map(|(a, b, c, d, e, f)| MetaOp::FieldsOrDefault(a, b, c, d, e, f)),
            2 => any::<u32>().prop_map(MetaOp::Unix),
            1 => (0u32..0o1000).prop_map(MetaOp::Unix),
            1 => any::<bool>().prop_map(MetaOp::ReadOnly),
            1 => Just(MetaOp::File),
            1 => Just(MetaOp::Dir),
            1 => Just(MetaOp::Sym),
        ],
        0..=max,
    )
    .boxed()
}

/// Caller buffer sizes
pub fn buf_len() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 1u32..4,
        3 => 1u32..70,
        3 => proptest::sample::select(vec![
            4u32, 8, 20, 21, 22, 23, 24, 25, 28, 29, 30, 31, 45, 46, 47, 55, 56, 57, 75, 76, 77, 97, 98, 99, 100,
        ]),
        3 => 64u32..2000,
        3 => proptest::sample::select(vec![512u32, 1024, 4096, 8191, 8192, 8193, 16384, 16385, 65536, 100_000]),
    ]
    .boxed()
}

/// Position relative to the records of an archive
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pos {
    /// boundary index (modulo count), delta
    Near(u16, i16),
    /// fraction of the archive
    Frac(u32),
    /// bytes past the end
    Past(u32),
    /// anywhere past the end: this, or this far from the highest position
    Far(u64, bool),
}

impl Pos {
    pub fn resolve(&self, boundaries: &[u64], size: u64) -> u64 {
        match *self {
            Pos::Near(i, d) => {
                let b = boundaries[usize::from(i) % boundaries.len()];
                b.saturating_add_signed(d.into())
            }
            Pos::Frac(f) => ((u128::from(size) * u128::from(f)) >> 32) as u64,
            Pos::Past(n) => size.saturating_add(n.into()),
            Pos::Far(n, top) => if top { u64::MAX - n } else { n }.max(size),
        }
    }
}

pub fn pos_strategy() -> BoxedStrategy<Pos> {
    prop_oneof![
        6 => (any::<u16>(), prop_oneof![4 => -3i16..4, 1 => -40i16..40, 1 => Just(0i16)]).prop_map(|(i, d)| Pos::Near(i, d)),
        3 => any::<u32>().prop_map(Pos::Frac),
        1 => prop_oneof![
            6 => prop_oneof![3 => 0u32..100, 1 => any::<u32>()].prop_map(Pos::Past),
            1 => (0u32..64, any::<u64>()).prop_map(|(s, n)| Pos::Far(n >> s, false)),
            1 => (0u64..100).prop_map(|n| Pos::Far(n, true)),
        ],
    ]
    .boxed()
}
