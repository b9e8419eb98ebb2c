//! Scratch directory trees. Everything stays inside a temporary directory that is removed after the case.

use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt as _;
use std::os::unix::fs::PermissionsExt as _;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::time::SystemTime;
use tokio::io::{AsyncReadExt as _, AsyncSeekExt as _};
use zippity::{FilesystemEntry, Reader};

/// Modification time: seconds and nanoseconds
pub type MTime = (i64, u32);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    File { name: String, mode: u32, mtime: MTime, content: Content },
    Dir { name: String, mode: u32, mtime: MTime, children: Vec<Node> },
    Sym { name: String, mtime: MTime, target: Target },
    /// Hard link to the first file of the same directory
    Hard { name: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    Text(String),
    /// Any bytes
    Bytes(Vec<u8>),
    /// The root of the scratch tree
    Root,
    /// Name of a sibling with this index
    Sibling(u8),
    Parent,
    Itself,
    /// An existing object outside of the tree
    Outside,
}

fn file_name() -> BoxedStrategy<String> {
    let c = prop_oneof![
        8 => proptest::char::range('a', 'e'),
        2 => proptest::char::range(' ', '~'),
        1 => proptest::char::any(),
        1 => Just('.'),
        1 => Just('\\'),
        1 => Just('\n'),
        1 => Just('é'),
        1 => Just('\u{301}'),
    ];
    prop_oneof![
        12 => proptest::collection::vec(c, 1..8).prop_map(|v| v.into_iter().collect::<String>()),
        1 => Just("...".to_string()),
        1 => Just(" ".to_string()),
        1 => Just("..a".to_string()),
        1 => Just(".hidden".to_string()),
        1 => Just("x".repeat(255)),
        1 => Just("é".repeat(127)),
        1 => Just("a b.txt".to_string()),
    ]
    .prop_map(|s| fix_name(&s))
    .boxed()
}

fn fix_name(s: &str) -> String {
    let s: String = s.chars().map(|c| if c == '/' || c == '\0' { '_' } else { c }).collect();
    let s = cut(s, 255);
    if s.is_empty() || s == "." || s == ".." { "dots".into() } else { s }
}

pub fn mtime_strategy() -> BoxedStrategy<MTime> {
    const Y1980: i64 = 315_532_800;
    const Y2108: i64 = 4_354_819_200;
    (
        prop_oneof![
            6 => Y1980..Y2108,
            2 => (prop_oneof![Just(Y1980), Just(Y2108), Just(0i64), Just(2_147_483_648), Just(4_294_967_296)], -4i64..5).prop_map(|(a, b)| a + b),
            1 => (prop_oneof![Just(Y1980), Just(Y2108)], -90_000i64..90_000).prop_map(|(a, b)| a + b),
            1 => -2_000_000_000i64..2_000_000_000,
        ],
        prop_oneof![Just(0u32), Just(999_999_999), 0u32..1_000_000_000],
    )
        .boxed()
}

/// As root the owner bits don't matter, others need them to read what they created
fn usable(mode: u32, dir: bool) -> u32 {
    if unsafe { libc::geteuid() } == 0 {
        mode
    } else {
        mode | if dir { 0o700 } else { 0o600 }
    }
}

fn mode() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..0o1000,
        1 => 0u32..0o10000,
        1 => proptest::sample::select(vec![0o644u32, 0o755, 0o600, 0o444, 0o777, 0, 0o4755, 0o1777]),
    ]
    .boxed()
}

pub fn target_strategy() -> BoxedStrategy<Target> {
    prop_oneof![
        3 => file_name().prop_map(Target::Text),
        1 => proptest::collection::vec(file_name(), 2..6).prop_map(|v| Target::Text(cut(v.join("/"), 1000))),
        1 => "(/?\\.\\./){0,3}[a-z]{1,4}/{0,2}".prop_map(Target::Text),
        1 => (100u32..3000).prop_map(|n| Target::Text("long/".repeat(n as usize / 5))),
        2 => proptest::collection::vec(prop_oneof![2 => 1u8..=255, 1 => 0x80u8..=255, 1 => Just(b'/'), 2 => b'a'..b'e'], 1..40).prop_map(Target::Bytes),
        1 => Just(Target::Root),
        3 => any::<u8>().prop_map(Target::Sibling),
        1 => Just(Target::Parent),
        1 => Just(Target::Itself),
        1 => Just(Target::Outside),
    ]
    .boxed()
}

pub fn node_strategy(max_len: u32, depth: u32, size: u32) -> BoxedStrategy<Node> {
    let leaf = prop_oneof![
        6 => (file_name(), mode(), mtime_strategy(), content_strategy(max_len))
            .prop_map(|(name, mode, mtime, content)| Node::File { name, mode, mtime, content }),
        2 => (file_name(), mtime_strategy(), target_strategy()).prop_map(|(name, mtime, target)| Node::Sym { name, mtime, target }),
        1 => file_name().prop_map(|name| Node::Hard { name }),
        1 => (file_name(), mode(), mtime_strategy()).prop_map(|(name, mode, mtime)| Node::Dir { name, mode, mtime, children: vec![] }),
    ];
    leaf.prop_recursive(depth, size, 5, |inner| {
        (file_name(), mode(), mtime_strategy(), proptest::collection::vec(inner, 1..5))
            .prop_map(|(name, mode, mtime, children)| Node::Dir { name, mode, mtime, children })
    })
    .boxed()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File(Vec<u8>),
    Dir,
    Sym(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub path: PathBuf,
    pub kind: Kind,
    pub perm: u32,
    pub mtime: SystemTime,
}

pub struct Scratch {
    pub dir: tempfile::TempDir,
    pub tree: PathBuf,
}

impl Scratch {
    pub fn new() -> Result<Scratch, String> {
        let dir = tempfile::Builder::new().prefix("zv").tempdir().map_err(|e| format!("ERROR scratch directory: {e}"))?;
        let tree = dir.path().join("tree");
        std::fs::create_dir(&tree).map_err(|e| e.to_string())?;
        std::fs::create_dir(dir.path().join("outside")).map_err(|e| e.to_string())?;
        std::fs::write(dir.path().join("outside/file"), b"outside").map_err(|e| e.to_string())?;
        Ok(Scratch { dir, tree })
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        // Directories without permissions can't be deleted by a normal user
        if unsafe { libc::geteuid() } != 0 {
            fn open_up(p: &Path) {
                let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
                if let Ok(d) = std::fs::read_dir(p) {
                    for e in d.flatten() {
                        if e.file_type().is_ok_and(|t| t.is_dir()) {
                            open_up(&e.path());
                        }
                    }
                }
            }
            open_up(&self.tree);
        }
    }
}

pub fn set_mtime(path: &Path, t: MTime) -> Result<(), String> {
    let c = CString::new(path.as_os_str().as_bytes()).map_err(|e| e.to_string())?;
    let ts = libc::timespec { tv_sec: t.0, tv_nsec: t.1.into() };
    let times = [ts, ts];
    let r = unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), times.as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
    if r == 0 { Ok(()) } else { Err(format!("ERROR utimensat: {}", std::io::Error::last_os_error())) }
}

fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("ERROR preparing a tree: {e}"))
}

/// Creates nodes in a directory. Returns relative path (in bytes) -> object; what has a clashing name is skipped.
pub fn create(s: &Scratch, dir: &Path, nodes: &[Node], prefix: &str, out: &mut BTreeMap<String, Obj>) -> Result<(), String> {
    let mut used: BTreeSet<String> = BTreeSet::new();
    let names: Vec<&String> = nodes
        .iter()
        .map(|n| match n {
            Node::File { name, .. } | Node::Dir { name, .. } | Node::Sym { name, .. } | Node::Hard { name } => name,
        })
        .collect();
    let mut first_file: Option<(PathBuf, String)> = None;
    for n in nodes {
        let name = match n {
            Node::File { name, .. } | Node::Dir { name, .. } | Node::Sym { name, .. } | Node::Hard { name } => name,
        };
        let path = dir.join(name);
        // Long paths can't be used by the system at all
        if path.as_os_str().len() > 3500 || !used.insert(name.clone()) {
            continue;
        }
        let rel = format!("{prefix}{name}");
        match n {
            Node::File { mode, mtime, content, .. } => {
                let bytes = content.bytes();
                io(std::fs::write(&path, &bytes))?;
                io(std::fs::set_permissions(&path, std::fs::Permissions::from_mode(usable(*mode, false))))?;
                set_mtime(&path, *mtime)?;
                if first_file.is_none() {
                    first_file = Some((path.clone(), rel.clone()));
                }
                out.insert(rel, obj(&path, Kind::File(bytes))?);
            }
            Node::Dir { mode, mtime, children, .. } => {
                io(std::fs::create_dir(&path))?;
                create(s, &path, children, &format!("{rel}/"), out)?;
                io(std::fs::set_permissions(&path, std::fs::Permissions::from_mode(usable(*mode, true))))?;
                set_mtime(&path, *mtime)?;
                out.insert(rel, obj(&path, Kind::Dir)?);
            }
            Node::Sym { mtime, target, .. } => {
                let t = match target {
                    Target::Text(t) if !t.is_empty() => PathBuf::from(t.replace('\0', "_")),
                    Target::Bytes(b) if !b.is_empty() => PathBuf::from(OsStr::from_bytes(b)),
                    Target::Text(_) | Target::Bytes(_) | Target::Itself => PathBuf::from(name),
                    Target::Root => s.tree.clone(),
                    Target::Sibling(i) => PathBuf::from(names[usize::from(*i) % names.len()]),
                    Target::Parent => PathBuf::from(".."),
                    Target::Outside => s.dir.path().join("outside"),
                };
                io(std::os::unix::fs::symlink(&t, &path))?;
                set_mtime(&path, *mtime)?;
                out.insert(rel, obj(&path, Kind::Sym(t.as_os_str().as_bytes().to_vec()))?);
            }
            Node::Hard { .. } => {
                if let Some((p, r)) = &first_file {
                    io(std::fs::hard_link(p, &path))?;
                    let kind = out[r].kind.clone();
                    out.insert(rel, obj(&path, kind)?);
                }
            }
        }
    }
    Ok(())
}

/// Attributes as the system reports them
pub fn obj(path: &Path, kind: Kind) -> Result<Obj, String> {
    let m = io(std::fs::symlink_metadata(path))?;
    Ok(Obj {
        path: path.to_path_buf(),
        kind,
        perm: m.permissions().mode() & 0o777,
        mtime: io(m.modified())?,
    })
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(2)
        .build()
        .unwrap_or_else(|e| panic!("ERROR runtime: {e}"));
}

/// Runs a future on the runtime of this thread
pub fn block_on<F: Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(tokio::task::unconstrained(f)))
}

pub struct FsReader(pub Pin<Box<Reader<FilesystemEntry>>>);

impl FsReader {
    /// Reads with a constant buffer to the end
    pub async fn to_end(&mut self, buf: usize, limit: u64) -> std::io::Result<Vec<u8>> {
        let mut out = Vec::new();
        let mut b = vec![0; buf];
        loop {
            let n = self.0.read(&mut b).await?;
            if n == 0 {
                return Ok(out);
            }
            out.extend_from_slice(&b[..n]);
            if out.len() as u64 > limit {
                return Err(std::io::Error::other(format!("harness: output is longer than {limit} bytes")));
            }
        }
    }
    /// Reads at most n bytes
    pub async fn some(&mut self, buf: usize, n: u64) -> std::io::Result<Vec<u8>> {
        let mut out = Vec::new();
        let mut b = vec![0; buf];
        while (out.len() as u64) < n {
            let k = (n - out.len() as u64).min(buf as u64) as usize;
            let k = self.0.read(&mut b[..k]).await?;
            if k == 0 {
                break;
            }
            out.extend_from_slice(&b[..k]);
        }
        Ok(out)
    }
    pub async fn seek(&mut self, pos: u64) -> std::io::Result<u64> {
        self.0.seek(std::io::SeekFrom::Start(pos)).await
    }
}

/// Contents of a file that is mostly a hole
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Holey {
    pub len: u64,
    /// Seeds and positions (fraction of the length, or distance from a power of two) of written blocks
    pub islands: Vec<(u8, u64, bool)>,
}

pub const ISLAND: usize = 300;

pub fn holey_strategy(max_bits: u32) -> BoxedStrategy<Holey> {
    let len = prop_oneof![
        3 => (32u32..=max_bits, -400i64..400).prop_map(|(b, d)| (1u64 << b).saturating_add_signed(d)),
        2 => (31u32..max_bits, any::<u64>()).prop_map(|(b, x)| (1u64 << b) + x % (1u64 << b)),
    ];
    (len, proptest::collection::vec((any::<u8>(), any::<u64>(), any::<bool>()), 0..5)).prop_map(|(len, islands)| Holey { len, islands }).boxed()
}

impl Holey {
    fn positions(&self) -> impl Iterator<Item = (u8, u64)> + '_ {
        self.islands.iter().map(|(seed, x, frac)| {
            let p = if *frac {
                ((u128::from(self.len) * u128::from(*x)) >> 64) as u64
            } else {
                (1u64 << (31 + x % 12)).saturating_sub((x >> 32) % 400)
            };
            (*seed, p.min(self.len.saturating_sub(1)))
        })
    }
    fn byte(seed: u8, i: u64) -> u8 {
        (i as u8).wrapping_mul(37).wrapping_add(seed) | 1
    }
    /// Bytes from `at`, fewer at the end
    pub fn window(&self, at: u64, len: usize) -> Vec<u8> {
        let n = self.len.saturating_sub(at).min(len as u64) as usize;
        let mut v = vec![0; n];
        for (seed, p) in self.positions() {
            for i in 0..ISLAND as u64 {
                if p + i < self.len && p + i >= at && p + i < at + n as u64 {
                    v[(p + i - at) as usize] = Self::byte(seed, i);
                }
            }
        }
        v
    }
    /// Interesting places of it
    pub fn places(&self) -> Vec<u64> {
        let mut v = vec![0, self.len.saturating_sub(20)];
        v.extend(self.positions().map(|p| p.1.saturating_sub(10)));
        v.extend((31..44).map(|b| (1u64 << b) - 7).filter(|p| *p < self.len));
        v
    }
    /// Shortened when the file system can't hold such a file
    pub fn write(&mut self, path: &Path) -> Result<(), String> {
        use std::os::unix::fs::FileExt as _;
        let f = io(std::fs::File::create(path))?;
        while let Err(e) = f.set_len(self.len) {
            if self.len < 1 << 20 {
                return Err(format!("ERROR preparing a sparse file: {e}"));
            }
            self.len /= 2;
        }
        for (seed, p) in self.positions() {
            let b: Vec<u8> = (0..ISLAND as u64).filter(|i| p + i < self.len).map(|i| Self::byte(seed, i)).collect();
            io(f.write_all_at(&b, p))?;
        }
        Ok(())
    }
}
