//! P15 Additions are accepted or rejected exactly as documented, atomically

use crate::engine::*;
use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zippity::{AddEntryError, Builder};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sz {
    Small(u16),
    /// Shifted
    Any(u64, u8),
    /// Fills the archive to the limit + delta
    Limit(i16),
    /// u64::MAX - n
    Max(u8),
    /// Rest of the limit shifted right
    Part(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nm {
    New(Name),
    /// Name of an already added entry
    Dup(u16),
    /// Similar to the name of an already added entry
    Near(u16, u8),
    /// Name of n bytes around the limit, of single or multi byte characters
    Len(i8, u8, u8),
    /// The same, with bytes at its start or end; length is a multiple of 65536 + n
    Odd(i8, u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Add(Nm, Sz, bool),
    Remove(u16),
    Pop,
    /// Adds an entry and makes it a copy of another one by the reference to it
    Copied(u16, u16),
    /// Entries of these sizes (shifted right) are put to the map of entries
    Graft(Vec<(u64, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
    /// Archive is read too
    read: bool,
}

fn strat(_: &Ctx) -> BoxedStrategy<Case> {
    let sz = prop_oneof![
        6 => (0u16..2000).prop_map(Sz::Small),
        2 => (any::<u64>(), 0u8..64).prop_map(|(a, b)| Sz::Any(a, b)),
        4 => prop_oneof![3 => -3i16..4, 1 => -300i16..300].prop_map(Sz::Limit),
        1 => any::<u8>().prop_map(Sz::Max),
        2 => (0u8..10).prop_map(Sz::Part),
    ];
    let small = (0u16..400).prop_map(Sz::Small);
    let nm = prop_oneof![
        8 => small_name().prop_map(Nm::New),
        3 => any::<u16>().prop_map(Nm::Dup),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(i, k)| Nm::Near(i, k)),
        1 => (-3i8..4, 0u8..4, any::<u8>()).prop_map(|(a, b, c)| Nm::Len(a, b, c)),
        1 => (-6i8..6, 0u8..5, any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d)| Nm::Odd(a, b, c, d)),
    ];
    let big = (nm.clone(), sz, any::<bool>()).prop_map(|(a, b, c)| Step::Add(a, b, c));
    let add_small = (nm, small, any::<bool>()).prop_map(|(a, b, c)| Step::Add(a, b, c));
    let other = prop_oneof![2 => any::<u16>().prop_map(Step::Remove), 2 => Just(Step::Pop), 1 => (any::<u16>(), 0u16..2000).prop_map(|(a, b)| Step::Copied(a, b))];
    let graft = proptest::collection::vec((any::<u64>(), prop_oneof![3 => 0u8..3, 1 => 0u8..64]), 1..5).prop_map(Step::Graft);
    prop_oneof![
        3 => proptest::collection::vec(prop_oneof![8 => big.clone(), 1 => other.clone()], 1..12).prop_map(|steps| Case { steps, read: false }),
        1 => proptest::collection::vec(prop_oneof![6 => big, 2 => other.clone(), 2 => graft], 1..12).prop_map(|steps| Case { steps, read: false }),
        2 => proptest::collection::vec(prop_oneof![8 => add_small, 1 => other], 1..12).prop_map(|steps| Case { steps, read: true }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct Sized64(u64, u32);

impl zippity::EntryData for Sized64 {
    type Reader = std::io::Cursor<Vec<u8>>;
    type Future = std::future::Ready<std::io::Result<Self::Reader>>;
    fn get_reader(&self) -> Self::Future {
        let mut v = vec![0; usize::try_from(self.0).unwrap_or(0).min(1 << 20)];
        fill_pattern(self.1.into(), 0, &mut v);
        std::future::ready(Ok(std::io::Cursor::new(v)))
    }
    fn size(&self) -> u64 {
        self.0
    }
}

fn overhead(name: &str) -> Result<u64, String> {
    let mut b: Builder<Sized64> = Builder::new();
    let before = b.size();
    b.add_entry(name.to_string(), Sized64(0, 0)).map_err(|e| format!("adding an empty entry to an empty builder failed: {e}"))?;
    Ok(b.size() - before)
}

fn check(c: &Case, cov: &mut Cov) -> Res {
    let mut b: Builder<Sized64> = Builder::new();
    // name, size, seed
    let mut model: Vec<(String, u64, u32)> = Vec::new();
    let empty = u128::from(b.size());
    let mut total = empty;
    let mut overfull = false;
    let mut rejections = [0u32; 3];
    let limit = u128::from(u64::MAX);
    for (si, step) in c.steps.iter().enumerate() {
        match step {
            Step::Remove(i) if !model.is_empty() => {
                let i = usize::from(*i) % model.len();
                b.get_entries_mut().shift_remove_index(i);
                let m = model.remove(i);
                total -= u128::from(overhead(&m.0)?) + u128::from(m.1);
            }
            Step::Pop if !model.is_empty() => {
                b.get_entries_mut().pop();
                if let Some(m) = model.pop() {
                    total -= u128::from(overhead(&m.0)?) + u128::from(m.1);
                }
            }
            Step::Copied(i, size) if !model.is_empty() && total <= limit - 100_000 => {
                let i = usize::from(*i) % model.len();
                let name = format!("copied {si}");
                if b.get_entries().contains_key(&name) {
                    continue;
                }
                let Some((_, copy)) = b.get_entries().get_index(i).map(|(k, v)| (k.clone(), v.clone())) else { fail!("entry {i} isn't in the map") };
                let be = b.add_entry(name.clone(), Sized64((*size).into(), 0)).map_err(|e| format!("entry of {size} B was refused: {e}"))?;
                *be = copy;
                let (_, size, seed) = model[i];
                total += u128::from(overhead(&name)?) + u128::from(size);
                model.push((name, size, seed));
            }
            Step::Graft(sizes) => {
                for (k, (x, shift)) in sizes.iter().enumerate() {
                    let (name, size) = (format!("grafted {si} {k}"), (x >> (shift % 64)).min(u64::MAX - 1000));
                    let seed = (si * 16 + k) as u32 + 5000;
                    let mut other: Builder<Sized64> = Builder::new();
                    other.add_entry(name.clone(), Sized64(size, seed)).map_err(|e| format!("entry was refused: {e}"))?;
                    let Some((key, entry)) = other.get_entries_mut().pop() else { fail!("added entry isn't in the map") };
                    // An entry of that name could be added already
                    if b.get_entries().contains_key(&key) {
                        continue;
                    }
                    b.get_entries_mut().insert(key, entry);
                    total += u128::from(overhead(&name)?) + u128::from(size);
                    model.push((name, size, seed));
                }
            }
            Step::Add(n, s, with_crc) => {
                let name = match n {
                    Nm::New(n) => n.text(),
                    Nm::Dup(i) if !model.is_empty() => model[usize::from(*i) % model.len()].0.clone(),
                    Nm::Near(i, k) if !model.is_empty() => near(&model[usize::from(*i) % model.len()].0, *k),
                    Nm::Near(..) | Nm::Dup(_) => "first".to_string(),
                    Nm::Odd(d, times, what, n) => {
                        let len = (65536usize * (usize::from(*times) / 2 + 1)).saturating_add_signed((*d).into());
                        let tag = ["/", "./", "../", " ", "\\", "\0", "\u{feff}", ".", "\n", "é", "C:", "//"][usize::from(*what) % 12].repeat(usize::from(*n) % 7 + 1);
                        let body = "o".repeat(len - tag.len());
                        if *n < 128 { tag + &body } else { body + &tag }
                    }
                    Nm::Len(d, unit, x) => {
                        let unit = ["x", "é", "€", "𝄞"][usize::from(*unit) % 4];
                        let len = 65535usize.saturating_add_signed((*d).into());
                        // Exactly len bytes
                        let tag = format!("{x:x}_");
                        let n = (len - tag.len()) / unit.len();
                        let mut t = tag + &unit.repeat(n);
                        while t.len() < len {
                            t.push('x');
                        }
                        t
                    }
                };
                let too_long = name.len() > 65535;
                let dup = model.iter().any(|m| m.0 == name);
                let over = if too_long { 0 } else { overhead(&name)? };
                let rest = u64::try_from((u128::from(u64::MAX)).saturating_sub(total + u128::from(over))).unwrap_or(0);
                let size = match s {
                    Sz::Small(x) => u64::from(*x),
                    Sz::Any(x, k) => x >> (k % 64),
                    Sz::Limit(d) => rest.saturating_add_signed((*d).into()),
                    Sz::Max(d) => u64::MAX - u64::from(*d),
                    Sz::Part(k) => rest >> (k % 64),
                };
                let new_total = total + u128::from(over) + u128::from(size);
                let too_big = new_total > u128::from(u64::MAX);
                let seed = si as u32 + 100;
                let before = (b.size(), snapshot(&b));
                let res = b.add_entry(name.clone(), Sized64(size, seed));
                let err = match res {
                    Ok(be) => {
                        if *with_crc {
                            be.crc32(7);
                        }
                        None
                    }
                    Err(e) => Some(e),
                };
                match err {
                    None => {
                        ensure!(!too_long, "name of {} bytes was accepted", name.len());
                        ensure!(!dup, "duplicate name {:?} was accepted", cut(name.clone(), 50));
                        ensure!(!too_big, "entry of {size} B was accepted, the archive would have {new_total} B");
                        model.push((name.clone(), size, seed));
                        total = new_total;
                        if *with_crc {
                            // Correct for reading
                            let crc = if c.read {
                                let mut v = vec![0; size as usize];
                                fill_pattern(seed.into(), 0, &mut v);
                                crc32fast::hash(&v)
                            } else {
                                7
                            };
                            if let Some(be) = b.get_entries_mut().get_mut(&name) {
                                be.crc32(crc);
                            }
                        }
                    }
                    Some(e) => {
                        let (kind, carried) = match &e {
                            AddEntryError::TooLongEntryName { entry_name } => (0, entry_name),
                            AddEntryError::DuplicateEntryName { entry_name } => (1, entry_name),
                            AddEntryError::TooLongZipFile { entry_name } => (2, entry_name),
                            _ => fail!("unknown error {e}"),
                        };
                        ensure!(
                            [too_long, dup, too_big][kind],
                            "addition (name of {} B, size {size}, archive {total} B) failed by '{}'",
                            name.len(),
                            cut(e.to_string(), 100)
                        );
                        ensure!(*carried == name, "error carries name {:?}, not {:?}", cut(carried.clone(), 50), cut(name, 50));
                        rejections[kind] += 1;
                        ensure!(
                            before == (b.size(), snapshot(&b)),
                            "rejected addition changed the builder: size {} -> {}, entries {} -> {}",
                            before.0,
                            b.size(),
                            before.1.len(),
                            b.get_entries().len()
                        );
                    }
                }
            }
            _ => {}
        }
        ensure!(u128::from(b.size()) == total.min(limit), "builder has size {}, sum of its entries is {total}", b.size());
        overfull |= total > limit;
        ensure!(
            b.get_entries().keys().eq(model.iter().map(|m| &m.0)),
            "entries of the builder differ from the added ones"
        );
    }
    // Nothing is promised for archives over the limit
    if total <= limit {
        let r = b.clone().build();
        ensure!(u128::from(r.size()) == total, "reader has size {}, {total} expected", r.size());
    }
    if c.read {
        let all = crate::exec::read_all(&mut b.build(), 8192).map_err(|e| format!("read failed: {e}"))?;
        let mut f: Builder<Vec<u8>> = Builder::new();
        for (n, s, seed) in &model {
            let mut v = vec![0; *s as usize];
            fill_pattern((*seed).into(), 0, &mut v);
            f.add_entry(n.clone(), v).map_err(|e| e.to_string())?;
        }
        let expected = crate::exec::plain_archive(f)?;
        ensure!(all == expected, "archive differs from one made of the accepted entries only");
    }
    for (k, l) in ["rejected: long name", "rejected: duplicate", "rejected: archive too long"].into_iter().enumerate() {
        cov.label_if(rejections[k] > 0, l);
    }
    cov.label_if(overfull, "entries over the limit put to the map");
    cov.label_if(overfull && total <= limit, "over the limit, then below again");
    cov.label_if(total <= limit && total > limit - 1000, "total close to the limit");
    cov.label_if(total == u128::from(u64::MAX), "total exactly at the limit");
    cov.nontrivial(rejections.iter().sum::<u32>() > 0 && !model.is_empty());
    Ok(())
}

fn snapshot(b: &Builder<Sized64>) -> Vec<String> {
    b.get_entries().iter().map(|(k, v)| format!("{} {:?}", fnv(k.as_bytes()), v)).collect()
}

pub fn property() -> Property {
    Property {
        id: "P15",
        rule: "Case = sequence of additions (new, duplicate, similar and limit length names; sizes small, arbitrary, filling the archive to the limit +-300) removals, and entries put to the map of entries directly, even over the limit. \
Non-trivial: at least one rejection and one accepted entry.",
        assumptions: &["when more than one reason for a rejection applies, any of them is accepted"],
        parts: vec![Box::new(Part { name: "admission", quick: 360_000, thorough: 36_000_000, strat, check })],
    }
}
