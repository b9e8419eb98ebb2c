//! Builder edit histories with a model

use crate::model::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zippity::{AddEntryError, Builder, BuilderEntry, EntryData};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Add(Name, Content, Vec<MetaOp>),
    /// Addition of a name that is already there
    AddDup(u16, Content),
    /// Addition with a name of 65535 + n bytes
    AddLong(u16),
    /// Additions of many small entries
    AddMany(u16, u8),
    Meta(u16, Vec<MetaOp>),
    /// Supplies the correct CRC
    Crc(u16),
    /// Supplies a wrong CRC; what it was is put right by `State::settle`
    WrongCrc(u16, u32),
    ShiftRemove(u16),
    SwapRemove(u16),
    Swap(u16, u16),
    Move(u16, u16),
    Reverse,
    Sort,
    Truncate(u16),
    Pop,
    /// Keeps entries whose content length has the remainder
    Retain(u8, u8),
    Clear,
    /// Inserts a copy of an entry under a new name directly to the map
    Copy(u16, Name),
    /// Replaces an entry in place by a copy of other one
    Replace(u16, u16),
    /// Adds an entry and makes it a copy of another one by the reference to it
    AddCopy(u16, Name, Content),
    /// Drains a range
    Drain(u16, u16),
    /// Continue on a clone of the builder
    CloneBuilder,
    /// Continue on a builder left behind, leaving the current one
    Switch(u16),
    /// Sets the converter of system times of the builder
    Converter(u8),
}

impl Edit {
    pub fn is_map_edit(&self) -> bool {
        !matches!(
            self,
            Edit::Add(..) | Edit::AddDup(..) | Edit::AddLong(_) | Edit::AddMany(..) | Edit::AddCopy(..) | Edit::Meta(..) | Edit::Crc(_) | Edit::WrongCrc(..) | Edit::CloneBuilder | Edit::Switch(_) | Edit::Converter(_)
        )
    }
}

/// Including system times
fn edit_meta_ops(max: usize) -> BoxedStrategy<Vec<MetaOp>> {
    (meta_ops(max), proptest::option::weighted(0.3, (any::<bool>(), 0u32..50, any::<u8>())))
        .prop_map(|(mut ops, sys)| {
            if let Some((default, t, at)) = sys {
                let op = if default { MetaOp::SystemOrDefault(t) } else { MetaOp::System(t) };
                ops.insert(usize::from(at) % (ops.len() + 1), op);
            }
            ops
        })
        .boxed()
}

pub fn edit_strategy(map_edits: bool) -> BoxedStrategy<Edit> {
    let i = any::<u16>;
    let basic = prop_oneof![
        12 => (name_mix(6), content_strategy(20_000), edit_meta_ops(2)).prop_map(|(n, c, m)| Edit::Add(n, c, m)),
        2 => (i(), content_strategy(300)).prop_map(|(a, b)| Edit::AddDup(a, b)),
        1 => prop_oneof![Just(1u16), 1u16..5000].prop_map(Edit::AddLong),
        2 => (i(), edit_meta_ops(3)).prop_map(|(a, b)| Edit::Meta(a, b)),
        2 => i().prop_map(Edit::Crc),
        1 => (i(), 1..=u32::MAX).prop_map(|(a, b)| Edit::WrongCrc(a, b)),
        1 => (i(), name_mix(6), content_strategy(3000)).prop_map(|(a, b, c)| Edit::AddCopy(a, b, c)),
        1 => Just(Edit::CloneBuilder),
        1 => i().prop_map(Edit::Switch),
        1 => (0u8..4).prop_map(Edit::Converter),
    ];
    if !map_edits {
        return basic.boxed();
    }
    prop_oneof![
        5 => basic,
        1 => i().prop_map(Edit::ShiftRemove),
        1 => i().prop_map(Edit::SwapRemove),
        1 => (i(), i()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Edit::Move(a, b)),
        1 => prop_oneof![
            3 => Just(Edit::Reverse), 3 => Just(Edit::Sort), 2 => i().prop_map(Edit::Truncate), 3 => Just(Edit::Pop), 1 => Just(Edit::Clear),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::Retain(a, b)),
            3 => (i(), i()).prop_map(|(a, b)| Edit::Drain(a, b)),
        ],
        1 => (i(), name_mix(6)).prop_map(|(a, b)| Edit::Copy(a, b)),
        1 => (i(), i()).prop_map(|(a, b)| Edit::Replace(a, b)),
    ]
    .boxed()
}

/// A history with many entries
pub fn many_strategy(edit: BoxedStrategy<Edit>, max_edits: usize) -> BoxedStrategy<Vec<Edit>> {
    (proptest::collection::vec(edit, 1..max_edits), prop_oneof![4 => 20u16..150, 1 => 150u16..700], any::<u8>(), any::<u8>())
        .prop_map(|(mut v, count, kind, at)| {
            v.insert(usize::from(at) % v.len(), Edit::AddMany(count, kind));
            v
        })
        .boxed()
}

#[derive(Clone, Debug)]
pub struct MEntry {
    pub name: String,
    pub content: Content,
    pub meta: Vec<MetaOp>,
    pub crc: bool,
    /// The CRC supplied last is not the right one
    pub wrong: bool,
    /// Converter of the builder when the entry was added
    pub conv: Option<u8>,
}

impl MEntry {
    /// Expresses system times by fields
    fn resolve(&self, ops: &[MetaOp]) -> Vec<MetaOp> {
        ops.iter()
            .filter_map(|op| match (op, self.conv) {
                (MetaOp::System(_), None) => None,
                (MetaOp::SystemOrDefault(_), None) => Some(MetaOp::FieldsOrDefault(0, 0, 0, 0, 0, 0)),
                (MetaOp::System(s), Some(k)) => {
                    let (a, b, c, d, e, f) = convert(k, at_second(*s));
                    Some(MetaOp::Fields(a, b, c, d, e, f))
                }
                (MetaOp::SystemOrDefault(s), Some(k)) => {
                    let (a, b, c, d, e, f) = convert(k, at_second(*s));
                    Some(MetaOp::FieldsOrDefault(a, b, c, d, e, f))
                }
                (op, _) => Some(op.clone()),
            })
            .collect()
    }
}

/// Supplies right CRCs in place of the wrong ones
pub fn settle<D: EntryData>(builder: &mut Builder<D>, model: &mut [MEntry]) {
    for m in model.iter_mut().filter(|m| m.wrong) {
        if let Some(be) = builder.get_entries_mut().get_mut(&m.name) {
            be.crc32(m.content.crc());
        }
        m.wrong = false;
        m.crc = true;
    }
}

pub struct State<D: EntryData> {
    pub builder: Builder<D>,
    pub model: Vec<MEntry>,
    /// Builders left behind with their models and converters
    pub left: Vec<(Builder<D>, Vec<MEntry>, Option<u8>)>,
    conv: Option<u8>,
    counter: u32,
}

impl<D: EntryData + Clone> Default for State<D> {
    fn default() -> Self {
        Self::new()
    }
}

impl<D: EntryData + Clone> State<D> {
    pub fn new() -> Self {
        State {
            builder: Builder::default(),
            model: vec![],
            left: vec![],
            conv: None,
            counter: 0,
        }
    }

    fn fresh_name(&mut self, n: &Name) -> String {
        let mut t = n.text();
        while self.model.iter().any(|m| m.name == t) {
            self.counter += 1;
            let suffix = format!("~{}", self.counter);
            t = cut(n.text(), 65535 - suffix.len()) + &suffix;
        }
        t
    }

    /// Returns true if the edit was an addition that was (rightly) rejected
    pub fn apply(&mut self, e: &Edit, make: &mut dyn FnMut(&Content) -> D) -> Result<bool, String> {
        let n = self.model.len();
        let at = |i: &u16| usize::from(*i) % n.max(1);
        match e {
            Edit::Add(name, content, meta) => {
                let name = self.fresh_name(name);
                let data = make(content);
                let be = self
                    .builder
                    .add_entry(name.clone(), data)
                    .map_err(|e| format!("adding a valid entry failed: {e}"))?;
                apply_meta(be, meta);
                let mut m = MEntry { name, content: content.clone(), meta: vec![], crc: false, wrong: false, conv: self.conv };
                m.meta = m.resolve(meta);
                self.model.push(m);
            }
            Edit::AddDup(i, content) if n > 0 => {
                let name = self.model[at(i)].name.clone();
                let data = make(content);
                match self.builder.add_entry(name.clone(), data) {
                    Err(AddEntryError::DuplicateEntryName { entry_name }) => {
                        ensure!(entry_name == name, "duplicate error carries {entry_name:?}, not {name:?}");
                    }
                    Err(e) => fail!("duplicate addition is rejected by a wrong error: {e}"),
                    Ok(_) => fail!("duplicate entry {name:?} was accepted"),
                }
                return Ok(true);
            }
            Edit::AddLong(extra) => {
                let name = "n".repeat(65535 + usize::from((*extra).max(1)));
                let data = make(&Content { len: 3, seed: 9 });
                match self.builder.add_entry(name.clone(), data) {
                    Err(AddEntryError::TooLongEntryName { entry_name }) => {
                        ensure!(entry_name == name, "error carries a different name");
                    }
                    Err(e) => fail!("too long name is rejected by a wrong error: {e}"),
                    Ok(_) => fail!("name of {} bytes was accepted", name.len()),
                }
                return Ok(true);
            }
            Edit::AddMany(count, kind) => {
                for k in 0..u32::from(*count) {
                    let content = Content { len: k * u32::from(*kind) % 7, seed: k };
                    let meta = if k % 5 == 4 { vec![MetaOp::Unix(k * 7)] } else { vec![] };
                    self.apply(&Edit::Add(Name::Lit(format!("m{}", self.counter + k)), content, meta), make)?;
                }
            }
            Edit::Meta(i, meta) if n > 0 => {
                let i = at(i);
                let (_, be) = self.builder.get_entries_mut().get_index_mut(i).ok_or("entry map is shorter than the model")?;
                apply_meta(be, meta);
                let meta = self.model[i].resolve(meta);
                self.model[i].meta.extend(meta);
            }
            Edit::Crc(i) if n > 0 => {
                let i = at(i);
                let crc = self.model[i].content.crc();
                let (_, be) = self.builder.get_entries_mut().get_index_mut(i).ok_or("entry map is shorter than the model")?;
                be.crc32(crc);
                self.model[i].crc = true;
                self.model[i].wrong = false;
            }
            Edit::WrongCrc(i, x) if n > 0 => {
                let i = at(i);
                let crc = self.model[i].content.crc() ^ x;
                let (_, be) = self.builder.get_entries_mut().get_index_mut(i).ok_or("entry map is shorter than the model")?;
                be.crc32(crc);
                self.model[i].wrong = true;
            }
            Edit::ShiftRemove(i) if n > 0 => {
                let i = at(i);
                self.builder.get_entries_mut().shift_remove_index(i);
                self.model.remove(i);
            }
            Edit::SwapRemove(i) if n > 0 => {
                let i = at(i);
                self.builder.get_entries_mut().swap_remove_index(i);
                self.model.swap_remove(i);
            }
            Edit::Swap(i, j) if n > 0 => {
                let (i, j) = (at(i), at(j));
                self.builder.get_entries_mut().swap_indices(i, j);
                self.model.swap(i, j);
            }
            Edit::Move(i, j) if n > 0 => {
                let (i, j) = (at(i), at(j));
                self.builder.get_entries_mut().move_index(i, j);
                let m = self.model.remove(i);
                self.model.insert(j, m);
            }
            Edit::Reverse => {
                self.builder.get_entries_mut().reverse();
                self.model.reverse();
            }
            Edit::Sort => {
                self.builder.get_entries_mut().sort_keys();
                self.model.sort_by(|a, b| a.name.cmp(&b.name));
            }
            Edit::Truncate(i) => {
                let k = usize::from(*i) % (n + 1);
                self.builder.get_entries_mut().truncate(k);
                self.model.truncate(k);
            }
            Edit::Pop => {
                self.builder.get_entries_mut().pop();
                self.model.pop();
            }
            Edit::Retain(m, r) => {
                let m = u64::from(*m % 3) + 2;
                let r = u64::from(*r) % m;
                self.builder.get_entries_mut().retain(|k, _| k.len() as u64 % m != r);
                self.model.retain(|e| e.name.len() as u64 % m != r);
            }
            Edit::Clear => {
                self.builder.get_entries_mut().clear();
                self.model.clear();
            }
            Edit::Copy(i, name) if n > 0 => {
                let i = at(i);
                let name = self.fresh_name(name);
                let map = self.builder.get_entries_mut();
                let be: BuilderEntry<D> = map.get_index(i).ok_or("entry map is shorter than the model")?.1.clone();
                map.insert(name.clone(), be);
                let mut m = self.model[i].clone();
                m.name = name;
                self.model.push(m);
            }
            Edit::Replace(i, j) if n > 0 => {
                let (i, j) = (at(i), at(j));
                let map = self.builder.get_entries_mut();
                let be: BuilderEntry<D> = map.get_index(j).ok_or("entry map is shorter than the model")?.1.clone();
                map[i] = be;
                let mut m = self.model[j].clone();
                m.name = self.model[i].name.clone();
                self.model[i] = m;
            }
            Edit::AddCopy(i, name, content) if n > 0 => {
                let i = at(i);
                let name = self.fresh_name(name);
                let data = make(content);
                let copy = self.builder.get_entries().get_index(i).ok_or("entry map is shorter than the model")?.1.clone();
                let be = self
                    .builder
                    .add_entry(name.clone(), data)
                    .map_err(|e| format!("adding a valid entry failed: {e}"))?;
                *be = copy;
                let mut m = self.model[i].clone();
                m.name = name;
                self.model.push(m);
            }
            Edit::Drain(i, j) if n > 0 => {
                let (i, j) = (at(i), at(j));
                let (i, j) = (i.min(j), i.max(j));
                drop(self.builder.get_entries_mut().drain(i..j));
                self.model.drain(i..j);
            }
            Edit::CloneBuilder => {
                let c = self.builder.clone();
                let old = std::mem::replace(&mut self.builder, c);
                self.left.push((old, self.model.clone(), self.conv));
            }
            Edit::Switch(i) if !self.left.is_empty() => {
                let i = usize::from(*i) % self.left.len();
                let (b, m, c) = &mut self.left[i];
                std::mem::swap(b, &mut self.builder);
                std::mem::swap(m, &mut self.model);
                std::mem::swap(c, &mut self.conv);
            }
            Edit::Converter(k) => {
                let k = *k;
                self.builder.system_time_converter(move |t| convert(k, t));
                self.conv = Some(k);
            }
            _ => {}
        }
        ensure!(
            self.builder.get_entries().keys().eq(self.model.iter().map(|m| &m.name)),
            "entries of the builder differ from the expected ones after {e:?}"
        );
        Ok(false)
    }
}
