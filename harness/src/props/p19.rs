//! P19 directory trees, P20 single filesystem entries, P21 files that change

use super::p16::{DEFAULT, F6, stored};
use super::p17::{civil, clamp_year};
use crate::engine::*;
use crate::exec::plain_archive;
use crate::fsx::*;
use crate::model::*;
use crate::zipparse::{Parsed, parse_mem_full};
use crate::{ensure, fail};
use actix_web::Responder as _;
use actix_web::body::{BoxBody, MessageBody as _};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::PermissionsExt as _;
use std::path::PathBuf;
use std::pin::Pin;
use std::time::{SystemTime, UNIX_EPOCH};
use zippity::{AddDirectoryRecursiveError, AddEntryError, AddFilesystemEntryError, Builder, FilesystemEntry};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Conv {
    None,
    /// Seconds east of UTC
    Zone(i32),
    Fields(F6),
}

pub fn conv_strategy() -> BoxedStrategy<Conv> {
    prop_oneof![
        1 => Just(Conv::None),
        3 => Just(Conv::Zone(0)),
        3 => (-86399i32..86400).prop_map(Conv::Zone),
        1 => super::p16::fields().prop_map(Conv::Fields),
    ]
    .boxed()
}

impl Conv {
    pub fn install(self, b: &mut Builder<FilesystemEntry>) {
        match self {
            Conv::None => {}
            Conv::Zone(o) => {
                b.system_time_timezone(chrono::FixedOffset::east_opt(o).unwrap());
            }
            Conv::Fields(f) => {
                b.system_time_converter(move |_| f);
            }
        }
    }
    pub fn time(self, t: SystemTime) -> F6 {
        let s = match t.duration_since(UNIX_EPOCH) {
            Ok(d) => i128::from(d.as_secs()),
            Err(e) => -(e.duration().as_nanos().div_ceil(1_000_000_000) as i128),
        };
        match self {
            Conv::None => DEFAULT,
            Conv::Zone(o) => stored(clamp_year(civil(s + i128::from(o)))).unwrap_or(DEFAULT),
            Conv::Fields(f) => stored(f).unwrap_or(DEFAULT),
        }
    }
}

/// What an entry has to be in the archive
#[derive(Clone, Debug)]
struct Want {
    kind: Kind,
    mode: u32,
    time: F6,
}

fn want(o: &Obj, conv: Conv) -> Want {
    let mode = match o.kind {
        Kind::File(_) => 0o100_000 | o.perm,
        Kind::Dir => 0o040_000 | o.perm,
        Kind::Sym(_) => 0o120_777,
    };
    Want { kind: o.kind.clone(), mode, time: conv.time(o.mtime) }
}

fn data_of(k: &Kind) -> &[u8] {
    match k {
        Kind::File(b) | Kind::Sym(b) => b,
        Kind::Dir => &[],
    }
}

fn check_archive(bytes: &[u8], p: &Parsed, wants: &BTreeMap<String, Want>) -> Res {
    for e in &p.entries {
        let name = String::from_utf8_lossy(&e.name).into_owned();
        let Some(w) = wants.get(&name) else {
            fail!("unexpected entry {name:?}");
        };
        ensure!(e.mode() == w.mode, "{name:?}: mode {:o}, object has {:o}", e.mode(), w.mode);
        ensure!(e.datetime() == w.time, "{name:?}: time {:?}, object has {:?}", e.datetime(), w.time);
        let got = &bytes[e.data_off as usize..e.desc_off as usize];
        ensure!(
            got == data_of(&w.kind),
            "{name:?}: content of {} B differs from that of the object ({} B)",
            got.len(),
            data_of(&w.kind).len()
        );
    }
    for n in wants.keys() {
        ensure!(p.find(n).is_some(), "entry {n:?} is missing");
    }
    ensure!(p.entries.len() == wants.len(), "archive has {} entries, {} expected", p.entries.len(), wants.len());
    Ok(())
}

/// The same archive made from memory
fn twin(order: &[String], wants: &BTreeMap<String, Want>) -> Result<Vec<u8>, String> {
    let mut b: Builder<Vec<u8>> = Builder::new();
    for n in order {
        let w = wants.get(n).ok_or_else(|| format!("unexpected entry {n:?}"))?;
        let be = b.add_entry(n.clone(), data_of(&w.kind).to_vec()).map_err(|e| e.to_string())?;
        match w.mode & 0o170_000 {
            0o040_000 => {
                be.directory();
            }
            0o120_000 => {
                be.symlink();
            }
            _ => {}
        }
        be.unix_permissions(w.mode & 0o777);
        let t = w.time;
        ensure!(be.datetime_fields(t.0, t.1, t.2, t.3, t.4, t.5).is_some(), "time {t:?} was refused");
    }
    plain_archive(b)
}

// ---------------------------------------------------------------- P19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeCase {
    nodes: Vec<Node>,
    /// The nodes are this many directories deeper
    deep: u16,
    root_mode: u32,
    root_mtime: MTime,
    root: Option<String>,
    /// How the path of the directory is written
    style: u8,
    conv: Conv,
    buf: u32,
    again: Again,
    /// Number of further objects, every n-th of them a directory, n levels deep
    #[serde(default)]
    wide: (u16, u8, u8),
    /// Entry that is there before: index of the clashing one, none or an unrelated one
    before: Option<(u8, bool)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Again {
    No,
    /// The same directory under other root name
    OtherRoot,
    /// The same directory under the same name
    Same,
}

fn tree_strat(_: &Ctx) -> BoxedStrategy<TreeCase> {
    let comp = prop_oneof![4 => "[a-z]{1,4}", 1 => Just("é x".to_string()), 1 => Just("..".to_string()), 1 => Just(".".to_string()), 1 => Just("\\".to_string())];
    let root = (0usize..3, proptest::collection::vec(comp, 1..4), prop_oneof![3 => Just("/"), 1 => Just("//")], 0usize..3)
        .prop_map(|(a, v, sep, b)| format!("{}{}{}", "/".repeat(a), v.join(sep), "/".repeat(b)));
    let root = prop_oneof![30 => root, 1 => (65520u32..65536).prop_map(|n| "r".repeat(n as usize)), 1 => Just("/abc".repeat(5000))];
    (
        (
            prop_oneof![
                10 => proptest::collection::vec(node_strategy(9000, 5, 24), 0..7),
                1 => proptest::collection::vec(node_strategy(100, 16, 60), 0..3),
                1 => proptest::collection::vec(node_strategy(10, 2, 10), 30..120),
            ],
            0u32..0o10000,
            mtime_strategy(),
        ),
        proptest::option::of(root),
        0u8..4,
        conv_strategy(),
        buf_len(),
        prop_oneof![8 => Just(Again::No), 1 => Just(Again::OtherRoot), 1 => Just(Again::Same)],
        prop_oneof![6 => Just(None), 1 => any::<(u8, bool)>().prop_map(Some)],
        prop_oneof![12 => Just(0u16), 1 => 1u16..300],
    )
        .prop_map(|((nodes, root_mode, root_mtime), root, style, conv, buf, again, before, deep)| TreeCase {
            nodes,
            deep,
            root_mode,
            root_mtime,
            root,
            style,
            conv,
            buf: buf.max(16),
            again,
            wide: (0, 0, 0),
            before,
        })
        .boxed()
}

fn wide_strat(ctx: &Ctx) -> BoxedStrategy<TreeCase> {
    (tree_strat(ctx), 100u16..4000, 0u8..5, 0u8..3)
        .prop_map(|(c, n, dirs, deep)| TreeCase { wide: (n, dirs, deep), deep: 0, again: Again::No, ..c })
        .boxed()
}

fn styled(s: &Scratch, style: u8) -> PathBuf {
    let t = s.tree.to_string_lossy().into_owned();
    PathBuf::from(match style {
        1 => format!("{t}/"),
        2 => format!("{t}/../tree"),
        3 => format!("{}/./tree//", s.dir.path().to_string_lossy()),
        _ => t,
    })
}

fn entry_names(objs: &BTreeMap<String, Obj>, root: Option<&str>, conv: Conv, root_obj: &Obj) -> BTreeMap<String, Want> {
    let mut out = BTreeMap::new();
    let prefix = match root {
        Some(r) => {
            let p = format!("{}/", r.trim_matches('/'));
            out.insert(p.clone(), want(root_obj, conv));
            p
        }
        None => String::new(),
    };
    for (rel, o) in objs {
        let slash = if o.kind == Kind::Dir { "/" } else { "" };
        out.insert(format!("{prefix}{rel}{slash}"), want(o, conv));
    }
    out
}

/// The archive has to be exactly that of the wanted entries
fn verify_builder(b: Builder<FilesystemEntry>, wants: &BTreeMap<String, Want>, buf: u32) -> Res {
    let order: Vec<String> = b.get_entries().keys().cloned().collect();
    for n in &order {
        ensure!(wants.contains_key(n), "unexpected entry {n:?}");
    }
    for n in wants.keys() {
        ensure!(b.get_entries().contains_key(n), "entry {n:?} was not added");
    }
    ensure!(order.len() == wants.len(), "{} entries were added, {} expected", order.len(), wants.len());
    let expected = twin(&order, wants)?;
    let size = b.size();
    ensure!(size == expected.len() as u64, "builder has size {size}, archive of the same data from memory {}", expected.len());
    let mut r = FsReader(Box::pin(b.build()));
    let bytes = block_on(r.to_end((buf as usize).max(expected.len() / 3000), size + 100_000)).map_err(|e| format!("read failed: {e}"))?;
    let p = parse_mem_full(&bytes)?;
    check_archive(&bytes, &p, wants)?;
    ensure!(bytes == expected, "archive of the directory differs from one of the same data from memory");
    Ok(())
}

/// Additions that fail or whose future is dropped in the middle
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartialCase {
    nodes: Vec<Node>,
    root: Option<String>,
    conv: Conv,
    buf: u32,
    /// Additions: pending answers until the future is dropped
    adds: Vec<(Adding, u16)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Adding {
    /// The whole tree (under a name different from the previous ones)
    Tree,
    /// The whole tree once more under the name of the previous one
    TreeAgain,
    /// One object
    One(u8),
    /// One object whose name is present already
    OneAgain(u8),
    /// Something that isn't there
    Nothing,
}

fn partial_strat(_: &Ctx) -> BoxedStrategy<PartialCase> {
    let what = prop_oneof![
        4 => Just(Adding::Tree),
        2 => Just(Adding::TreeAgain),
        2 => any::<u8>().prop_map(Adding::One),
        1 => any::<u8>().prop_map(Adding::OneAgain),
        1 => Just(Adding::Nothing),
    ];
    (
        proptest::collection::vec(node_strategy(2000, 4, 16), 1..7),
        proptest::option::of("[a-c]{1,3}"),
        conv_strategy(),
        buf_len(),
        proptest::collection::vec((what, prop_oneof![3 => 0u16..40, 1 => Just(u16::MAX)]), 1..6),
    )
        .prop_map(|(nodes, root, conv, buf, adds)| PartialCase { nodes, root, conv, buf: buf.max(16), adds })
        .boxed()
}

/// Result of the future, None if it was dropped after this many pending answers
fn abandon<F: Future>(f: F, after: u16) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0;
    block_on(std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
        std::task::Poll::Pending if n >= after => std::task::Poll::Ready(None),
        std::task::Poll::Pending => {
            n += 1;
            std::task::Poll::Pending
        }
    }))
}

fn partial_check(c: &PartialCase, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let mut objs = BTreeMap::new();
    create(&s, &s.tree.clone(), &c.nodes, "", &mut objs)?;
    let root_obj = obj(&s.tree, Kind::Dir)?;
    let mut b: Builder<FilesystemEntry> = Builder::new();
    c.conv.install(&mut b);
    // What may be there, what has to
    let mut sure: BTreeMap<String, Want> = BTreeMap::new();
    let mut root = c.root.clone();
    let mut incomplete = 0;
    for (n, (what, polls)) in c.adds.iter().enumerate() {
        let mut may: BTreeMap<String, Want> = BTreeMap::new();
        let mut complete = false;
        match what {
            Adding::Tree | Adding::TreeAgain => {
                if *what == Adding::Tree {
                    root = root.map(|r| format!("{r}{n}")).or_else(|| (n > 0).then(|| format!("n{n}")));
                }
                may = entry_names(&objs, root.as_deref(), c.conv, &root_obj);
                let clash = may.keys().any(|k| sure.contains_key(k));
                match abandon(b.add_directory_recursive(s.tree.clone(), root.as_deref()), *polls) {
                    Some(Ok(())) => {
                        ensure!(!clash, "addition {n} of a directory over present names succeeded");
                        complete = true;
                    }
                    Some(Err(AddDirectoryRecursiveError::AddEntryError(AddEntryError::DuplicateEntryName { entry_name }))) if clash => {
                        ensure!(sure.contains_key(&entry_name), "clash of {entry_name:?} is reported, that was not present");
                        cov.label("failed for a clash");
                    }
                    Some(Err(e)) => fail!("addition {n} of a directory failed: {}", cut(e.to_string(), 200)),
                    None => cov.label("directory given up"),
                }
            }
            Adding::One(k) | Adding::OneAgain(k) => {
                if objs.is_empty() {
                    continue;
                }
                let (_, o) = objs.iter().nth(usize::from(*k) % objs.len()).unwrap_or_else(|| unreachable!());
                let dir = o.kind == Kind::Dir;
                let name = match what {
                    Adding::OneAgain(k) if !sure.is_empty() => {
                        sure.keys().nth(usize::from(*k) % sure.len()).cloned().unwrap_or_default().trim_end_matches('/').to_string()
                    }
                    _ => format!("one {n}"),
                };
                let full = if dir { format!("{name}/") } else { name.clone() };
                may.insert(full.clone(), want(o, c.conv));
                let m = std::fs::symlink_metadata(&o.path).map_err(|e| format!("ERROR metadata: {e}"))?;
                match abandon(b.add_filesystem_entry(name.clone(), o.path.clone(), &m), *polls) {
                    Some(Ok(_)) => {
                        ensure!(!sure.contains_key(&full), "addition {n} of a present name {full:?} succeeded");
                        complete = true;
                    }
                    Some(Err(zippity::AddFilesystemEntryError::AddEntryError(AddEntryError::DuplicateEntryName { entry_name })))
                        if sure.contains_key(&full) =>
                    {
                        ensure!(entry_name == full, "clash of {entry_name:?} is reported for {full:?}");
                    }
                    Some(Err(e)) => fail!("addition {n} of an object failed: {}", cut(e.to_string(), 200)),
                    None => cov.label("object given up"),
                }
            }
            Adding::Nothing => {
                if let Some(Ok(())) = abandon(b.add_directory_recursive(s.dir.path().join("nothing"), root.as_deref()), *polls) {
                    fail!("addition {n} of a directory that doesn't exist succeeded");
                }
            }
        }
        // Nothing disappears, nothing else appears
        for k in sure.keys() {
            ensure!(b.get_entries().contains_key(k), "entry {k:?} disappeared by addition {n}");
        }
        let before = sure.len();
        for (k, w) in may {
            if b.get_entries().contains_key(&k) {
                sure.entry(k).or_insert(w);
            } else {
                ensure!(!complete, "entry {k:?} is missing after a complete addition {n}");
            }
        }
        if !complete && sure.len() > before {
            incomplete += 1;
            cov.label("added in part");
        }
    }
    cov.nontrivial(incomplete > 0);
    verify_builder(b, &sure, c.buf)
}

fn tree_check(c: &TreeCase, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let mut objs = BTreeMap::new();
    let mut nodes = c.nodes.clone();
    if c.wide.0 > 0 {
        let mut more = Vec::new();
        for i in 0..u32::from(c.wide.0) {
            let name = format!("w{i}");
            let mtime = (1_000_000_000 + i64::from(i) * 2, 0);
            let file = |name| Node::File { name, mode: 0o600 + (i & 0o177), mtime, content: Content { len: i % 23, seed: i } };
            more.push(if c.wide.1 > 0 && i % u32::from(c.wide.1) == 0 {
                Node::Dir { name, mode: 0o700 + (i & 0o77), mtime, children: if i % 2 == 0 { vec![file("f".into())] } else { vec![] } }
            } else {
                file(name)
            });
        }
        for i in 0..c.wide.2 {
            more = vec![Node::Dir { name: format!("deeper{i}"), mode: 0o755, mtime: (1_600_000_000, 0), children: more }];
        }
        nodes.extend(more);
        cov.label("hundreds of objects");
    }
    for i in 0..c.deep {
        nodes = vec![Node::Dir { name: format!("{i}"), mode: 0o755, mtime: (1_600_000_000 + i64::from(i) * 2, 0), children: nodes }];
    }
    create(&s, &s.tree.clone(), &nodes, "", &mut objs)?;
    drop(nodes);
    let mode = if unsafe { libc::geteuid() } == 0 { c.root_mode } else { c.root_mode | 0o700 };
    std::fs::set_permissions(&s.tree, std::fs::Permissions::from_mode(mode)).map_err(|e| e.to_string())?;
    set_mtime(&s.tree, c.root_mtime)?;
    let root_obj = obj(&s.tree, Kind::Dir)?;

    let mut b: Builder<FilesystemEntry> = Builder::new();
    let names = entry_names(&objs, c.root.as_deref(), c.conv, &root_obj);
    let mut wants: BTreeMap<String, Want> = BTreeMap::new();
    let outside = s.dir.path().join("outside/file");
    let mut clash = false;
    if let Some((i, same)) = c.before {
        let name = if same && !names.is_empty() {
            clash = true;
            names.keys().nth(usize::from(i) % names.len()).cloned().unwrap_or_default()
        } else {
            "unrelated entry \u{1}".to_string()
        };
        let m = std::fs::symlink_metadata(&outside).map_err(|e| e.to_string())?;
        let fe = block_on(FilesystemEntry::with_metadata(outside.clone(), &m)).map_err(|e| format!("with_metadata failed: {e}"))?;
        if name.len() <= 65535 {
            b.add_entry(name.clone(), fe).map_err(|e| format!("valid addition failed: {e}"))?;
            wants.insert(name, Want { kind: Kind::File(b"outside".to_vec()), mode: 0o100_644, time: DEFAULT });
        } else {
            clash = false;
        }
    }
    c.conv.install(&mut b);
    let too_long = names.keys().any(|n| n.len() > 65535);
    let res = block_on(b.add_directory_recursive(styled(&s, c.style), c.root.as_deref()));
    cov.label_if(clash, "name clash");
    cov.label_if(too_long, "too long name");
    match res {
        Ok(()) => {
            ensure!(!clash, "adding a directory over an existing name succeeded");
            ensure!(!too_long, "adding a directory with a too long entry name succeeded");
        }
        Err(AddDirectoryRecursiveError::AddEntryError(AddEntryError::DuplicateEntryName { entry_name })) if clash => {
            ensure!(wants.contains_key(&entry_name), "clash of {entry_name:?} is reported, that is not present");
            return Ok(());
        }
        Err(AddDirectoryRecursiveError::AddEntryError(AddEntryError::TooLongEntryName { entry_name })) if too_long => {
            ensure!(names.contains_key(&entry_name), "too long name doesn't belong to the tree");
            ensure!(entry_name.len() > 65535, "name of {} B is reported as too long", entry_name.len());
            return Ok(());
        }
        Err(e) => fail!("adding a directory failed: {}", cut(e.to_string(), 200)),
    }
    wants.extend(names);
    match c.again {
        Again::No => {}
        Again::OtherRoot => {
            let other = format!("{}+", c.root.as_deref().map(|r| cut(r.to_string(), 500)).unwrap_or_default());
            block_on(b.add_directory_recursive(styled(&s, c.style), Some(&other)))
                .map_err(|e| format!("adding a directory under other name failed: {}", cut(e.to_string(), 200)))?;
            wants.extend(entry_names(&objs, Some(&other), c.conv, &root_obj));
            cov.label("added twice");
        }
        Again::Same => match block_on(b.add_directory_recursive(styled(&s, c.style), c.root.as_deref())) {
            Ok(()) => ensure!(objs.is_empty() && c.root.is_none(), "adding the same directory for the second time succeeded"),
            Err(AddDirectoryRecursiveError::AddEntryError(AddEntryError::DuplicateEntryName { entry_name })) => {
                ensure!(wants.contains_key(&entry_name), "clash of {entry_name:?} is reported, that is not present");
                cov.label("refused second addition");
            }
            Err(e) => fail!("adding the same directory for the second time failed by a wrong error: {}", cut(e.to_string(), 200)),
        },
    }
    verify_builder(b, &wants, c.buf)?;
    let depth = objs.keys().map(|k| k.matches('/').count()).max().unwrap_or(0);
    cov.label_if(depth >= 2, "depth over 2");
    cov.label_if(depth >= 8, "depth over 8");
    cov.label_if(depth >= 64, "depth over 64");
    cov.label_if(objs.values().any(|o| matches!(o.kind, Kind::Sym(_))), "symlinks");
    cov.label_if(objs.len() > 40, "over 40 objects");
    cov.label_if(c.root.is_some(), "root name");
    cov.nontrivial(objs.len() >= 3 && objs.values().any(|o| matches!(&o.kind, Kind::File(b) if !b.is_empty())));
    Ok(())
}

/// Trees with an object whose path is over the limit of the system, so that it can't be listed, read as a link or opened
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BeyondCase {
    nodes: Vec<Node>,
    /// 0 directory, 1 symlink, 2 file
    kind: u8,
    /// Bytes of the object's path over the limit
    over: u8,
    root: Option<String>,
    buf: u32,
}

fn beyond_strat(_: &Ctx) -> BoxedStrategy<BeyondCase> {
    (
        proptest::collection::vec(node_strategy(300, 2, 6), 0..4),
        0u8..3,
        0u8..100,
        proptest::option::of(Just("root".to_string())),
        buf_len(),
    )
        .prop_map(|(nodes, kind, over, root, buf)| BeyondCase { nodes, kind, over, root, buf: buf.max(16) })
        .boxed()
}

fn beyond_check(c: &BeyondCase, cov: &mut Cov) -> Res {
    use std::os::fd::{AsRawFd as _, FromRawFd as _, OwnedFd};
    const LIMIT: usize = 4096;
    let s = Scratch::new()?;
    let mut objs = BTreeMap::new();
    create(&s, &s.tree.clone(), &c.nodes, "", &mut objs)?;
    // A chain of directories that ends a bit before the limit, then the object
    let os = |r: i32| if r < 0 { Err(format!("ERROR preparing a long path: {}", std::io::Error::last_os_error())) } else { Ok(r) };
    let cs = |n: &str| std::ffi::CString::new(n).unwrap_or_default();
    let mut dir: OwnedFd = std::fs::File::open(&s.tree).map_err(|e| e.to_string())?.into();
    let mut len = s.tree.as_os_str().len();
    let mut rel = String::new();
    while len + 1 + 200 < LIMIT - 50 {
        let n = format!("{:D>200}", rel.len());
        os(unsafe { libc::mkdirat(dir.as_raw_fd(), cs(&n).as_ptr(), 0o755) })?;
        let fd = os(unsafe { libc::openat(dir.as_raw_fd(), cs(&n).as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) })?;
        dir = unsafe { OwnedFd::from_raw_fd(fd) };
        len += 201;
        rel = format!("{rel}{n}/");
    }
    let n = "x".repeat((LIMIT + usize::from(c.over) - len - 1).min(255));
    ensure!(len + 1 + n.len() >= LIMIT, "ERROR the path of {} B is too short", len + 1 + n.len());
    match c.kind {
        0 => os(unsafe { libc::mkdirat(dir.as_raw_fd(), cs(&n).as_ptr(), 0o755) })?,
        1 => os(unsafe { libc::symlinkat(cs("target").as_ptr(), dir.as_raw_fd(), cs(&n).as_ptr()) })?,
        _ => {
            let fd = os(unsafe { libc::openat(dir.as_raw_fd(), cs(&n).as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_CLOEXEC, 0o644) })?;
            let mut f = std::fs::File::from(unsafe { OwnedFd::from_raw_fd(fd) });
            std::io::Write::write_all(&mut f, b"content").map_err(|e| e.to_string())?;
            0
        }
    };
    let too_long = |e: &std::io::Error| e.raw_os_error() == Some(libc::ENAMETOOLONG);
    let mut b: Builder<FilesystemEntry> = Builder::new();
    b.system_time_timezone(chrono::Utc);
    match block_on(b.add_directory_recursive(s.tree.clone(), c.root.as_deref())) {
        Err(AddDirectoryRecursiveError::IOError(e)) => {
            ensure!(too_long(&e), "wrong error {e}");
            cov.label("addition failed");
        }
        Err(e) => fail!("wrong error {}", cut(e.to_string(), 200)),
        Ok(()) => {
            ensure!(c.kind == 2, "adding a directory succeeded, but an object below it (kind {}) can't be read", c.kind);
            let end = format!("{rel}{n}");
            ensure!(b.get_entries().keys().any(|k| k.ends_with(&end)), "file at the end of a long path is missing");
            let size = b.size();
            let mut r = FsReader(Box::pin(b.build()));
            match block_on(r.to_end((c.buf as usize).max(size as usize / 3000), size + 100_000)) {
                Ok(_) => fail!("read of a file that can't be opened succeeded"),
                Err(e) => ensure!(too_long(&e), "wrong error {e}"),
            }
            cov.label("read failed");
        }
    }
    cov.nontrivial(true);
    Ok(())
}

/// Paths that are not directories
fn refuse_strat(_: &Ctx) -> BoxedStrategy<(u8, Option<String>, Content)> {
    (0u8..6, proptest::option::of("/?[a-z]{1,3}/?"), content_strategy(50)).boxed()
}

fn refuse_check(c: &(u8, Option<String>, Content), cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let p = s.tree.join("x");
    let io = |r: std::io::Result<()>| r.map_err(|e| e.to_string());
    let mut missing = false;
    match c.0 {
        0 => io(std::fs::write(&p, c.2.bytes()))?,
        1 => io(std::os::unix::fs::symlink("../outside", &p))?,
        2 => io(std::os::unix::fs::symlink("nothing", &p))?,
        3 => io(std::os::unix::fs::symlink("../outside/file", &p))?,
        4 => io(std::os::unix::fs::symlink("x", &p))?,
        _ => missing = true,
    }
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let size = b.size();
    match block_on(b.add_directory_recursive(p.clone(), c.1.as_deref())) {
        Ok(()) => fail!("path that is not a directory (kind {}) was accepted", c.0),
        Err(AddDirectoryRecursiveError::NotADirectory { path, .. }) => {
            ensure!(!missing, "nonexistent path is reported as not a directory");
            ensure!(path == p, "error has path {path:?}");
        }
        Err(AddDirectoryRecursiveError::IOError(e)) => ensure!(missing, "path that is not a directory (kind {}) gives {e}", c.0),
        Err(e) => fail!("wrong error {e}"),
    }
    ensure!(b.get_entries().is_empty() && b.size() == size, "refused path added something");
    cov.nontrivial(true);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P19",
        rule: "Case = directory tree (names of arbitrary UTF-8 characters up to 255 bytes, depth up to 300, empty objects, symlinks dangling / looping / to directories, hard links, modes, modification times \
in and out of range), root name or none, path spelling, time converter, clashing entries, repeated additions. Non-trivial: at least 3 objects, one of them a non-empty file. \
Part wide: trees of 100 to 4000 objects. Part beyond: trees with an object that can't be listed, read as a link or opened, because its path is over the limit of the system: the addition, or the read for files, must fail with that error. \
Part partial: sequences of additions that fail (a name is present, nothing is at the path) or whose futures are dropped after a number of polls: no entry disappears, \
those that appeared are complete and right. Non-trivial: an addition added a part of its objects. \
Part refuse: paths of other objects than directories.",
        assumptions: &["file names are UTF-8 (others are stored lossily)", "no special files (pipes, devices)", "root name is not empty or slashes only"],
        parts: vec![
            Box::new(Part { name: "tree", quick: 2500, thorough: 250_000, strat: tree_strat, check: tree_check }),
            Box::new(Part { name: "wide", quick: 80, thorough: 8000, strat: wide_strat, check: tree_check }),
            Box::new(Part { name: "beyond", quick: 150, thorough: 15_000, strat: beyond_strat, check: beyond_check }),
            Box::new(Part { name: "partial", quick: 2500, thorough: 250_000, strat: partial_strat, check: partial_check }),
            Box::new(Part { name: "refuse", quick: 400, thorough: 40_000, strat: refuse_strat, check: refuse_check }),
        ],
    }
}

// ---------------------------------------------------------------- P20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
    node: Node,
    name: Name,
    slashes: u8,
    /// Length over the limit of names
    long: Option<i8>,
    /// Metadata of the target of the symlink
    follow: bool,
    /// By `with_metadata` and `add_entry`
    manual: bool,
    crc: bool,
    /// The symlink is replaced by one with this target after its metadata was read
    #[serde(default)]
    retarget: Option<Name>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Seek(Pos),
    Read(u32, u16),
    Take,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SingleCase {
    items: Vec<Single>,
    conv: Conv,
    ops: Vec<ROp>,
    buf: u32,
}

fn single_strat(_: &Ctx) -> BoxedStrategy<SingleCase> {
    let item = (
        node_strategy(20_000, 1, 3),
        small_name(),
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        proptest::option::weighted(0.03, -4i8..4),
        any::<bool>(),
        prop_oneof![5 => Just(false), 1 => Just(true)],
        any::<bool>(),
        proptest::option::weighted(0.3, small_name()),
    )
        .prop_map(|(node, name, slashes, long, follow, manual, crc, retarget)| Single { node, name, slashes, long, follow, manual, crc, retarget });
    let op = prop_oneof![
        3 => pos_strategy().prop_map(ROp::Seek),
        4 => (buf_len(), 1u16..6).prop_map(|(a, b)| ROp::Read(a, b)),
        1 => Just(ROp::Take),
        1 => Just(ROp::Clone),
    ];
    (proptest::collection::vec(item, 1..6), conv_strategy(), proptest::collection::vec(op, 0..12), buf_len())
        .prop_map(|(items, conv, ops, buf)| SingleCase { items, conv, ops, buf })
        .boxed()
}

fn single_check(c: &SingleCase, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let mut b: Builder<FilesystemEntry> = Builder::new();
    c.conv.install(&mut b);
    let mut wants: BTreeMap<String, Want> = BTreeMap::new();
    let mut order: Vec<String> = Vec::new();
    let mut crcs = HashMap::new();
    for (i, it) in c.items.iter().enumerate() {
        // Each object in its own directory
        let d = s.tree.join(format!("{i}"));
        std::fs::create_dir(&d).map_err(|e| e.to_string())?;
        let mut objs = BTreeMap::new();
        create(&s, &d, std::slice::from_ref(&it.node), "", &mut objs)?;
        let Some((_, o)) = objs.iter().find(|(k, _)| !k.contains('/')) else {
            continue;
        };
        let mut o = o.clone();
        let mut meta = std::fs::symlink_metadata(&o.path).map_err(|e| e.to_string())?;
        if it.follow {
            if let Ok(m) = std::fs::metadata(&o.path) {
                if meta.is_symlink() {
                    cov.label("followed symlink");
                    let kind = if m.is_dir() {
                        Kind::Dir
                    } else {
                        Kind::File(std::fs::read(&o.path).map_err(|e| e.to_string())?)
                    };
                    o = Obj { path: o.path.clone(), kind, perm: m.permissions().mode() & 0o777, mtime: m.modified().map_err(|e| e.to_string())? };
                }
                meta = m;
            }
        }
        if let (Some(t), true) = (&it.retarget, meta.is_symlink()) {
            let t = format!("{}/{i}", cut(t.text().replace('\0', "_"), 1000));
            std::fs::remove_file(&o.path).map_err(|e| e.to_string())?;
            std::os::unix::fs::symlink(&t, &o.path).map_err(|e| e.to_string())?;
            o.kind = Kind::Sym(t.into_bytes());
            cov.label("link replaced before the addition");
        }
        let mut name = match it.long {
            Some(d) => "l".repeat((65535 + i32::from(d)) as usize),
            None => it.name.text(),
        };
        name.push_str(&"/".repeat(it.slashes.into()));
        let clean = if it.manual {
            name.clone()
        } else {
            let t = name.trim_end_matches('/').to_string();
            if o.kind == Kind::Dir { t + "/" } else { t }
        };
        let mut w = want(&o, c.conv);
        let before = (b.size(), b.get_entries().len());
        let crc = crc32fast::hash(data_of(&o.kind));
        let res = if it.manual {
            let fe = block_on(FilesystemEntry::with_metadata(o.path.clone(), &meta)).map_err(|e| format!("with_metadata failed: {e}"))?;
            use zippity::EntryData as _;
            ensure!(fe.size() == data_of(&o.kind).len() as u64, "object of {} B reports size {}", data_of(&o.kind).len(), fe.size());
            w.mode = 0o100_644;
            w.time = DEFAULT;
            b.add_entry(name, fe).map_err(AddFilesystemEntryError::from)
        } else {
            block_on(b.add_filesystem_entry(name, o.path.clone(), &meta))
        };
        match res {
            Ok(be) => {
                ensure!(clean.len() <= 65535, "name of {} B was accepted", clean.len());
                ensure!(!wants.contains_key(&clean), "name {clean:?} was accepted for the second time");
                if it.crc {
                    be.crc32(crc);
                }
                crcs.insert(clean.clone(), crc);
                order.push(clean.clone());
                wants.insert(clean, w);
            }
            Err(e) => {
                let (what, n) = match e {
                    AddFilesystemEntryError::AddEntryError(AddEntryError::TooLongEntryName { entry_name }) => (clean.len() > 65535, entry_name),
                    AddFilesystemEntryError::AddEntryError(AddEntryError::DuplicateEntryName { entry_name }) => {
                        (wants.contains_key(&clean), entry_name)
                    }
                    e => fail!("addition failed: {}", cut(e.to_string(), 200)),
                };
                ensure!(what, "valid name {:?} ({} B) was refused", cut(clean.clone(), 100), clean.len());
                ensure!(n == clean, "error carries a name different from the one being added");
                ensure!(before == (b.size(), b.get_entries().len()), "refused addition changed the builder");
                cov.label("refused addition");
            }
        }
    }
    ensure!(
        b.get_entries().keys().eq(order.iter()),
        "entries are named {:?}, {:?} expected",
        b.get_entries().keys().map(|k| cut(k.clone(), 60)).collect::<Vec<_>>(),
        order.iter().map(|k| cut(k.clone(), 60)).collect::<Vec<_>>()
    );
    let expected = twin(&order, &wants)?;
    let p = parse_mem_full(&expected)?;
    let size = expected.len() as u64;
    ensure!(b.size() == size, "builder has size {}, archive of the same data from memory {size}", b.size());
    let mut r = FsReader(Box::pin(b.build()));
    let mut pos = 0u64;
    for op in &c.ops {
        match op {
            ROp::Seek(t) => {
                pos = t.resolve(&p.boundaries, size);
                let got = block_on(r.seek(pos)).map_err(|e| format!("seek failed: {e}"))?;
                ensure!(got == pos, "seek to {pos} returned {got}");
            }
            ROp::Read(buf, n) => {
                let n = u64::from(*buf) * u64::from(*n);
                let buf = (*buf as usize).max(n as usize / 2000);
                let got = block_on(r.some(buf, n)).map_err(|e| format!("read at {pos} failed: {e}"))?;
                let a = pos.min(size) as usize;
                let z = (pos.saturating_add(n)).min(size) as usize;
                ensure!(got == expected[a..z], "range {a}..{z} differs from the archive of the same data from memory");
                pos += got.len() as u64;
            }
            ROp::Take => {
                let t = r.0.as_mut().take_pinned();
                r = FsReader(Box::pin(t));
            }
            ROp::Clone => {
                let t = Reader::clone(&r.0);
                r = FsReader(Box::pin(t));
            }
        }
        for (n, c) in r.0.crc32s() {
            ensure!(crcs.get(n) == Some(&c), "CRC of entry {n:?} is reported as {c:08x}");
        }
    }
    // Everything once more from a clone
    let mut r = FsReader(Box::pin(Reader::clone(&r.0)));
    block_on(r.seek(0)).map_err(|e| format!("seek failed: {e}"))?;
    let bytes = block_on(r.to_end((c.buf as usize).max(expected.len() / 3000), size + 100_000)).map_err(|e| format!("read failed: {e}"))?;
    let p = parse_mem_full(&bytes)?;
    check_archive(&bytes, &p, &wants)?;
    ensure!(bytes == expected, "archive of filesystem entries differs from one of the same data from memory");
    cov.label_if(c.items.iter().any(|i| i.manual), "by with_metadata");
    cov.label_if(c.items.iter().any(|i| i.crc), "known CRC");
    cov.label_if(c.items.iter().any(|i| i.slashes > 0), "trailing slashes");
    cov.nontrivial(!wants.is_empty() && c.ops.iter().any(|o| matches!(o, ROp::Seek(_))) && c.ops.iter().any(|o| matches!(o, ROp::Read(..))));
    Ok(())
}

use zippity::Reader;

pub fn property_p20() -> Property {
    Property {
        id: "P20",
        rule: "Case = filesystem objects (files, directories, symlinks; described by their own or followed metadata) added one by one under names with trailing slashes, clashing or too long, some with a known CRC, some of the symlinks replaced after their metadata was read, \
then seeks, range reads, takes and clones of the reader. Non-trivial: something was added, and the history has a seek and a read.",
        assumptions: &["file names are UTF-8", "no special files"],
        parts: vec![Box::new(Part { name: "single", quick: 4000, thorough: 400_000, strat: single_strat, check: single_check })],
    }
}

// ---------------------------------------------------------------- P21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    None,
    /// To a fraction of the length
    Truncate(u8),
    TruncateBy(u8),
    Extend(u16),
    Delete,
    ByDir,
    /// Of the same length
    Rewrite(u32),
    /// Other file of the same length is moved over it
    Replace(u32),
    /// Other file of a different length is moved over it
    ReplaceOther(u16),
    ByDangling,
    /// Symlink to a file with the original content
    BySymlink,
    /// Deleted and created again
    Recreate,
    Touch,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum When {
    /// Between the addition and building of the archive
    BeforeBuild,
    /// Before anything is read
    Before,
    /// After this part of the archive was read
    Middle(u32),
    /// After the whole archive was read, it is read once more
    Between,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChangeCase {
    files: Vec<(Content, bool, Change)>,
    sym: Option<(String, String)>,
    when: When,
    buf: u32,
    /// Read as a HTTP response
    #[serde(default)]
    http: bool,
}

fn change_strat(_: &Ctx) -> BoxedStrategy<ChangeCase> {
    let change = prop_oneof![
        6 => Just(Change::None),
        1 => any::<u8>().prop_map(Change::Truncate),
        1 => (0u8..5).prop_map(Change::TruncateBy),
        1 => prop_oneof![0u16..3, any::<u16>()].prop_map(Change::Extend),
        1 => Just(Change::Delete),
        1 => Just(Change::ByDir),
        3 => (8u32..5000).prop_map(Change::Rewrite),
        1 => (8u32..5000).prop_map(Change::Replace),
        1 => any::<u16>().prop_map(Change::ReplaceOther),
        1 => Just(Change::ByDangling),
        1 => Just(Change::BySymlink),
        1 => Just(Change::Recreate),
        1 => Just(Change::Touch),
    ];
    (
        proptest::collection::vec((nonempty_content(40_000), any::<bool>(), change), 1..5),
        proptest::option::weighted(0.3, ("[a-z]{1,20}", "[a-z]{1,20}")),
        prop_oneof![3 => Just(When::BeforeBuild), 3 => Just(When::Before), 2 => any::<u32>().prop_map(When::Middle), 2 => Just(When::Between)],
        buf_len(),
        proptest::bool::weighted(0.4),
    )
        .prop_map(|(files, sym, when, buf, http)| ChangeCase { files, sym, when, buf: buf.max(8), http })
        .boxed()
}

#[derive(Clone, Debug, PartialEq)]
enum State {
    Content(Vec<u8>),
    Broken,
}

fn apply_change(s: &Scratch, i: usize, old: &[u8], ch: &Change) -> Result<State, String> {
    let p = s.tree.join(format!("f{i}"));
    let io = |r: std::io::Result<()>| r.map_err(|e| format!("ERROR changing a file: {e}"));
    let aside = s.dir.path().join(format!("aside{i}"));
    let make = |seed: u32, len: usize| {
        let mut v = vec![0; len];
        fill_pattern(seed.into(), 0, &mut v);
        v
    };
    Ok(match ch {
        Change::None => State::Content(old.to_vec()),
        Change::Truncate(_) | Change::TruncateBy(_) => {
            let n = match ch {
                Change::Truncate(x) => old.len() * usize::from(*x) / 256,
                Change::TruncateBy(x) => old.len() - (usize::from(*x) + 1).min(old.len()),
                _ => 0,
            };
            let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
            io(f.set_len(n as u64))?;
            State::Content(old[..n].to_vec())
        }
        Change::Extend(n) => {
            let mut v = old.to_vec();
            v.extend(make(77, usize::from(*n) + 1));
            let mut f = std::fs::OpenOptions::new().append(true).open(&p).map_err(|e| e.to_string())?;
            io(std::io::Write::write_all(&mut f, &v[old.len()..]))?;
            State::Content(v)
        }
        Change::Delete => {
            io(std::fs::remove_file(&p))?;
            State::Broken
        }
        Change::ByDir => {
            io(std::fs::remove_file(&p))?;
            io(std::fs::create_dir(&p))?;
            State::Broken
        }
        Change::Rewrite(seed) => {
            let v = make(*seed, old.len());
            let mut f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
            io(std::io::Write::write_all(&mut f, &v))?;
            State::Content(v)
        }
        Change::Replace(seed) => {
            let v = make(*seed, old.len());
            io(std::fs::write(&aside, &v))?;
            io(std::fs::rename(&aside, &p))?;
            State::Content(v)
        }
        Change::ReplaceOther(n) => {
            let mut n = usize::from(*n);
            n += usize::from(n == old.len());
            let v = make(88, n);
            io(std::fs::write(&aside, &v))?;
            io(std::fs::rename(&aside, &p))?;
            State::Content(v)
        }
        Change::ByDangling => {
            io(std::fs::remove_file(&p))?;
            io(std::os::unix::fs::symlink("nothing", &p))?;
            State::Broken
        }
        Change::BySymlink => {
            io(std::fs::rename(&p, &aside))?;
            io(std::os::unix::fs::symlink(&aside, &p))?;
            State::Content(old.to_vec())
        }
        Change::Recreate => {
            io(std::fs::remove_file(&p))?;
            io(std::fs::write(&p, old))?;
            State::Content(old.to_vec())
        }
        Change::Touch => {
            set_mtime(&p, (1_700_000_000, 5))?;
            State::Content(old.to_vec())
        }
    })
}

fn change_all(c: &ChangeCase, s: &Scratch, olds: &[Vec<u8>]) -> Result<Vec<State>, String> {
    let mut states = Vec::new();
    for (i, (_, _, ch)) in c.files.iter().enumerate() {
        states.push(apply_change(s, i, &olds[i], ch)?);
    }
    if let Some((_, z)) = &c.sym {
        let p = s.tree.join("sym");
        std::fs::remove_file(&p).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink(z, &p).map_err(|e| e.to_string())?;
    }
    Ok(states)
}

async fn body_bytes(mut body: BoxBody) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    while let Some(x) = std::future::poll_fn(|cx| Pin::new(&mut body).poll_next(cx)).await {
        out.extend_from_slice(&x.map_err(|e| e.to_string())?);
    }
    Ok(out)
}

fn change_check(c: &ChangeCase, cov: &mut Cov) -> Res {
    let s = Scratch::new()?;
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let olds: Vec<Vec<u8>> = c.files.iter().map(|f| f.0.bytes()).collect();
    for (i, (_, crc, _)) in c.files.iter().enumerate() {
        let p = s.tree.join(format!("f{i}"));
        std::fs::write(&p, &olds[i]).map_err(|e| e.to_string())?;
        let m = std::fs::symlink_metadata(&p).map_err(|e| e.to_string())?;
        let be = block_on(b.add_filesystem_entry(format!("f{i}"), p, &m)).map_err(|e| format!("valid addition failed: {e}"))?;
        if *crc {
            be.crc32(crc32fast::hash(&olds[i]));
        }
    }
    if let Some((a, _)) = &c.sym {
        let p = s.tree.join("sym");
        std::os::unix::fs::symlink(a, &p).map_err(|e| e.to_string())?;
        let m = std::fs::symlink_metadata(&p).map_err(|e| e.to_string())?;
        block_on(b.add_filesystem_entry("sym".into(), p, &m)).map_err(|e| format!("valid addition failed: {e}"))?;
    }
    let size = b.size();
    let buf = (c.buf as usize).max(size as usize / 4000);
    let limit = size + 300_000;
    let mut states = Vec::new();
    if c.when == When::BeforeBuild {
        states = change_all(c, &s, &olds)?;
        cov.label("before building");
        ensure!(b.size() == size, "size of the builder was {size} before files were changed, {} after it", b.size());
    }
    let mut r = FsReader(Box::pin(b.build()));
    ensure!(r.0.size() == size, "builder has size {size}, the reader {}", r.0.size());
    let mut known: Vec<bool> = c.files.iter().map(|f| f.1).collect();
    let mut bytes = Vec::new();
    match c.when {
        When::Before | When::BeforeBuild => {}
        When::Middle(f) => {
            let n = (u128::from(size) * u128::from(f) >> 32) as u64;
            bytes = block_on(r.some(buf, n)).map_err(|e| format!("read of unchanged files failed: {e}"))?;
        }
        When::Between => {
            block_on(r.to_end(buf, limit)).map_err(|e| format!("read of unchanged files failed: {e}"))?;
            block_on(r.seek(0)).map_err(|e| format!("seek failed: {e}"))?;
            known.fill(true);
        }
    }
    if c.when != When::BeforeBuild {
        states = change_all(c, &s, &olds)?;
    }
    let middle = matches!(c.when, When::Middle(_));
    let breaking = states.iter().enumerate().any(|(i, s)| match s {
        State::Broken => true,
        State::Content(v) => v.len() != olds[i].len() || (known[i] && *v != olds[i] && crc32fast::hash(v) != crc32fast::hash(&olds[i])),
    });
    let changed = states.iter().enumerate().any(|(i, s)| *s != State::Content(olds[i].clone()));
    let res = if c.http && !middle {
        cov.label("read as a response");
        let reader = r.0.as_mut().take_pinned();
        let body = reader.into_responder().respond_to(&super::p23::request(None, 0)).into_body();
        block_on(body_bytes(body))
    } else {
        block_on(r.to_end(buf, limit)).map_err(|e| e.to_string())
    };
    cov.label_if(res.is_err(), "read failed");
    cov.label_if(breaking, "breaking change");
    cov.label_if(changed && !breaking, "tolerable change");
    cov.label_if(middle && changed, "changed in the middle");
    cov.nontrivial(changed);
    match res {
        Err(e) => {
            ensure!(changed, "read of unchanged files failed: {e}");
            ensure!(!e.starts_with("harness:"), "{e}");
            ensure!(breaking || middle, "content of the same length without a known CRC makes reads fail: {e}");
        }
        Ok(rest) => {
            ensure!(middle || !breaking, "files changed ({states}), but the read completed", states = summary(c, &states, &olds));
            bytes.extend(rest);
            ensure!(bytes.len() as u64 == size, "archive has {} B, {size} announced", bytes.len());
            // Includes the check of CRCs against the data
            let p = parse_mem_full(&bytes).map_err(|e| format!("completed archive of changed files is inconsistent: {e}"))?;
            for (i, st) in states.iter().enumerate() {
                let e = p.find(&format!("f{i}")).ok_or("entry is missing")?;
                let got = &bytes[e.data_off as usize..e.desc_off as usize];
                if known[i] {
                    ensure!(crc32fast::hash(got) == crc32fast::hash(&olds[i]), "f{i}: data don't match the known CRC");
                }
                if !middle {
                    ensure!(State::Content(got.to_vec()) == *st, "f{i}: content is not that of the file");
                }
            }
            if let Some((a, _)) = &c.sym {
                let e = p.find("sym").ok_or("entry sym is missing")?;
                ensure!(
                    &bytes[e.data_off as usize..e.desc_off as usize] == a.as_bytes(),
                    "target of the symlink isn't the one from the time of adding"
                );
            }
        }
    }
    Ok(())
}

fn summary(c: &ChangeCase, states: &[State], olds: &[Vec<u8>]) -> String {
    c.files
        .iter()
        .zip(states)
        .zip(olds)
        .map(|(((_, crc, ch), s), o)| {
            let l = match s {
                State::Content(v) => format!("{} B", v.len()),
                State::Broken => "unreadable".into(),
            };
            format!("{ch:?} of {} B -> {l}{}", o.len(), if *crc { " with CRC" } else { "" })
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn property_p21() -> Property {
    Property {
        id: "P21",
        rule: "Case = files (some with a known CRC) and a symlink added to a builder; some are truncated, extended, deleted, rewritten, replaced by other files, directories or symlinks before reading, \
in the middle of it, or between two complete reads (which are direct, or as HTTP responses). Non-trivial: some content changed.",
        assumptions: &[
            "no special files (opening a pipe would block)",
            "changes in the middle of reading: only consistency of a completed archive is judged",
        ],
        parts: vec![Box::new(Part { name: "changes", quick: 5000, thorough: 500_000, strat: change_strat, check: change_check })],
    }
}
